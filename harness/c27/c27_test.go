package c27

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Case is a history, then work that is done Times times and must leave nothing behind.
type Case struct {
	h.Hist
	Memory bool
	Times  int
	Work   []string // search, multi, index, fields, docs, df, unknown, save, idle
	Terms  int      // terms of one query
	Gap    int      // fake milliseconds between two rounds of work that saves
}

type left struct {
	goroutines, fds, files int
	heap                   uint64
	list                   []string
}

func measure(dir string, limit int) left {
	var l left
	h.Sleep(0)
	// the count may lag behind for a moment of real time
	l.goroutines = runtime.NumGoroutine()
	for i := 0; i < 1000 && l.goroutines > limit && (limit > 0 || i < 4); i++ {
		syscall.Nanosleep(&syscall.Timespec{Nsec: 5e6}, nil)
		l.goroutines = runtime.NumGoroutine()
	}
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		l.fds = len(d)
	}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			l.files++
			l.list = append(l.list, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	return l
}

func heap() uint64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

const idle = 35 * time.Second // every flush and the merge after it

func run(t *testing.T, c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // nothing is closed by the collector
	return h.InSession(t, func() error {
		var s storage.Storage
		var err error
		if c.Memory {
			s = storage.NewMemory()
		} else if s, err = storage.NewDiskStore(dir, c.Cache); err != nil {
			return fmt.Errorf("open: %w", err)
		}
		m := h.NewModel()
		for i, op := range c.Ops {
			if err := h.Apply(s, m, op); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
		fields := h.SortedKeys(m.Size)
		if len(fields) == 0 {
			fields = []string{"f"}
		}
		docs := h.SortedKeys(m.Fields)
		inv := index.NewIndex(s)
		sr := search.NewStandard(inv)
		var qs []h.Query
		for _, f := range fields {
			terms := h.SortedKeys(m.Post[f])
			terms = append(terms, "unknown")
			for n := 0; len(terms) < c.Terms; n++ {
				terms = append(terms, fmt.Sprintf("unknown%d", n))
			}
			qs = append(qs, h.Query{Field: f, Boost: 1, Terms: terms})
		}
		n := 0
		work := func() {
			n++
			for _, w := range c.Work {
				switch w {
				case "search":
					sr.Search(h.ToQueries(qs[:1]))
				case "multi":
					sr.Search(h.ToQueries(qs))
				case "index":
					s.GetNumberFieldTerm(qs[0].Field, qs[0].Terms)
					s.GetIndex(qs[0].Field)
				case "lookup":
					inv.Search(qs[0].Terms, qs[0].Field)
				case "fields":
					s.GetFields(append([]string{"unknown"}, docs...), fields[n%len(fields)])
				case "docs":
					s.GetDocuments(fields[0], qs[0].Terms[n%len(qs[0].Terms)])
				case "save":
					inv.IndexDocument(fmt.Sprintf("new document %d", n), model.NormalizedDocument{Fields: []model.Field{
						{Name: fields[0], Length: 2, TF: map[string]int{"all": 1, fmt.Sprintf("n%d", n%3): 1}}}})
				}
			}
		}
		saves := false
		for _, w := range c.Work {
			saves = saves || w == "save"
		}
		gap := time.Duration(0)
		if saves {
			gap = time.Duration(c.Gap) * time.Millisecond
		}
		for i := 0; i < 3; i++ { // what is made once
			work()
			h.Sleep(gap)
		}
		h.Sleep(idle)
		before := measure(dir, 0)
		for i := 0; i < c.Times; i++ {
			work()
			h.Sleep(gap)
		}
		h.Sleep(idle)
		after := measure(dir, before.goroutines)
		o.Nontrivial(len(m.Saves) > 0)
		o.Class(saves, "saves")
		o.Class(!c.Memory, "disk")
		slack := c.Times / 2
		if d := after.goroutines - before.goroutines; d > slack {
			return fmt.Errorf("%d rounds of %v left %d goroutines behind", c.Times, c.Work, d)
		}
		if d := after.fds - before.fds; d > slack {
			return fmt.Errorf("%d rounds of %v left %d open files behind", c.Times, c.Work, d)
		}
		grown := 0
		if saves {
			grown = c.Times // the new documents
		}
		if d := after.files - before.files; d > grown+slack {
			return fmt.Errorf("%d rounds of %v left %d files behind, for %d new documents: %q", c.Times, c.Work, d, grown, after.list[:min(30, len(after.list))])
		}
		h.Sleep(4 * idle)
		later := measure(dir, after.goroutines)
		if fmt.Sprint(later.list) != fmt.Sprint(after.list) {
			return fmt.Errorf("the files of an idle store change: %q, were %q", later.list, after.list)
		}
		if later.goroutines > after.goroutines+4 || later.fds > after.fds+4 {
			return fmt.Errorf("an idle store grows: goroutines %d to %d, open files %d to %d", after.goroutines, later.goroutines, after.fds, later.fds)
		}
		// repeating reads takes no lasting memory
		reads := func(n int) {
			for i := 0; i < n; i++ {
				q := qs[i%len(qs)]
				q.Terms = q.Terms[:min(len(q.Terms), 4)]
				sr.Search(h.ToQueries([]h.Query{q}))
				s.GetFields(docs[:min(len(docs), 4)], q.Field)
				s.GetDocuments(q.Field, q.Terms[0])
				s.GetNumberFieldTerm(q.Field, q.Terms)
				if i%50 == 0 {
					s.GetIndex(q.Field)
				}
			}
			h.Sleep(0)
		}
		const repeats = 1000
		reads(100)
		r0 := heap()
		reads(repeats)
		r1 := heap()
		runtime.KeepAlive(s)
		if r1 > r0+repeats*100 {
			return fmt.Errorf("%d repeated reads took %d bytes of memory for good", repeats, r1-r0)
		}
		// asking for what is not there takes no lasting memory
		const asks = 4000
		name := func(i int) string { return fmt.Sprintf("%0200d", i) }
		ask := func(from, n int) {
			for i := from; i < from+n; i++ {
				s.GetFields([]string{name(i)}, fields[0])
				s.GetDocuments(fields[0], name(i))
				s.GetDocuments(name(i), "all")
				s.GetNumberFieldTerm(fields[0], []string{name(i)})
				s.GetFieldSize(name(i))
				s.GetFieldLength(name(i))
				if i%8 == 0 {
					sr.Search([]model.Query{{FieldName: name(i), Boost: 1, Terms: []string{name(i)}}})
				}
			}
			h.Sleep(0)
		}
		ask(0, 300)
		h0 := heap()
		ask(300, asks)
		h1 := heap()
		runtime.KeepAlive(s)
		if h1 > h0+asks*150 {
			return fmt.Errorf("%d questions about unknown names took %d bytes of memory for good", asks, h1-h0)
		}
		return nil
	})
}

// Bounded is a store whose documents are large: few terms that all of them share, each thousands of bytes long.
type Bounded struct {
	Cache, Docs, Fields, Terms, Long int
	Every                            int   // fake milliseconds between saves
	Order                            []int // how the documents are read: strides through them, 0 for one at a time backwards
}

func (b Bounded) field(i int) model.Field {
	f := model.Field{Name: fmt.Sprintf("f%d", i), Length: b.Terms, TF: map[string]int{}}
	for j := 0; j < b.Terms; j++ {
		f.TF[fmt.Sprintf("t%d", j)+strings.Repeat("x", b.Long)] = 1 // texts of its own
	}
	return f
}

func bounded(t *testing.T, c Bounded, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	one := c.Fields * c.Terms * c.Long
	limit := 400000 + c.Docs*c.Fields*c.Terms*500 + 2*(c.Cache+8)*one
	all := c.Docs * one
	o.Nontrivial(all > 2*limit)
	ids := make([]string, c.Docs)
	for i := range ids {
		ids[i] = fmt.Sprintf("document %d", i)
	}
	for life := 0; life < 2; life++ {
		err := h.InSession(t, func() error {
			h0 := heap()
			s, err := storage.NewDiskStore(dir, c.Cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if life == 0 {
				for _, id := range ids {
					for f := 0; f < c.Fields; f++ {
						s.SaveOrUpdate(id, c.field(f))
					}
					h.Sleep(time.Duration(c.Every) * time.Millisecond)
				}
			}
			h.Sleep(idle)
			look := func(what string) error {
				h.Sleep(0)
				h1 := heap()
				runtime.KeepAlive(s)
				if h1 > h0 && h1-h0 > uint64(limit) {
					return fmt.Errorf("%s: a store of capacity %d takes %d bytes, its %d documents are %d bytes, and it should take %d at most", what, c.Cache, h1-h0, c.Docs, all, limit)
				}
				return nil
			}
			if err := look("after saves or opening"); err != nil {
				return err
			}
			for _, stride := range c.Order {
				seen := 0
				switch {
				case stride == 0:
					for i := len(ids) - 1; i >= 0; i-- {
						seen += len(s.GetFields(ids[i:i+1], "f0"))
					}
				default:
					for at := 0; at < len(ids); at += stride {
						seen += len(s.GetFields(ids[at:min(at+stride, len(ids))], fmt.Sprintf("f%d", at%c.Fields)))
					}
				}
				if seen != c.Docs {
					return fmt.Errorf("%d documents are read, want %d", seen, c.Docs)
				}
				h.Sleep(time.Second)
				if err := look("after reads"); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("life %d: %w", life, err)
		}
	}
	return nil
}

func genBounded(t *rapid.T) Bounded {
	c := Bounded{Cache: rapid.IntRange(1, 5).Draw(t, "cache"), Fields: rapid.IntRange(1, 3).Draw(t, "fields"), Terms: rapid.IntRange(1, 3).Draw(t, "terms"),
		Long: rapid.IntRange(4000, 9000).Draw(t, "long"), Every: rapid.SampledFrom([]int{0, 0, 10, 200, 1000}).Draw(t, "every"),
		Order: rapid.SliceOfN(rapid.IntRange(0, 60), 1, 3).Draw(t, "order")}
	c.Docs = rapid.IntRange(200, 400).Draw(t, "docs")
	return c
}

func gen(t *rapid.T) Case {
	c := Case{Hist: h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 5, Fields: 3, NoReads: true, Sleep: true, Bulk: 60}),
		Memory: rapid.IntRange(0, 2).Draw(t, "memory") == 0,
		Times:  rapid.IntRange(20, 60).Draw(t, "times"),
		Work:   rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"search", "multi", "index", "lookup", "fields", "docs", "save", "idle"}), 1, 4, rapid.ID[string]).Draw(t, "work"),
		Terms:  h.Size(60).Draw(t, "terms"),
		Gap:    rapid.SampledFrom([]int{0, 100, 5000, 14000, 20000}).Draw(t, "gap")}
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "leftovers", Quick: 320, Thorough: 8000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return run(t, c, o) }})
	h.Run(t, h.Sub[Bounded]{Name: "bounded", Quick: 64, Thorough: 1600, Gen: genBounded,
		Check: func(c Bounded, o *h.Obs) error { return bounded(t, c, o) }})
}
