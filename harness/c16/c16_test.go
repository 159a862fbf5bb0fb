package c16

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Op is one operation of one goroutine.
type Op struct {
	K     string // save, search, fields, docs, df, stats, index, until
	Doc   string
	Saves []h.Save
	Field string
	Docs  []string
	Terms []string
	Qs    []h.Query
	Ms    int // until: fake time since the start
}

type Case struct {
	Disk    bool
	Cache   int
	Base    []h.Save
	Bulk    *h.Bulk `json:",omitempty"` // saved first, too
	Threads [][]Op
	Repeat  int // a thread's reads are repeated so often
}

type event struct {
	s          h.Save
	start, end int64
}

// history is the record of all saves with the instants of a shared clock.
type history struct {
	sync.Mutex
	clock atomic.Int64
	ev    []*event
}

func (hs *history) now() int64 { return hs.clock.Add(1) }

func (hs *history) begin(saves []h.Save) []*event {
	hs.Lock()
	defer hs.Unlock()
	var l []*event
	for _, s := range saves {
		e := &event{s: s, start: hs.now(), end: math.MaxInt64}
		l = append(l, e)
		hs.ev = append(hs.ev, e)
	}
	return l
}

func (hs *history) finish(l []*event) {
	hs.Lock()
	defer hs.Unlock()
	for _, e := range l {
		e.end = hs.now()
	}
}

// bounds returns what an operation from start to end must have seen and may have seen.
func (hs *history) bounds(start, end int64) (lower, upper *h.Model) {
	hs.Lock()
	defer hs.Unlock()
	lower, upper = h.NewModel(), h.NewModel()
	for _, e := range hs.ev {
		if e.end < start {
			lower.Add(e.s)
		}
		if e.start < end {
			upper.Add(e.s)
		}
	}
	return
}

func run1(s storage.Storage, op Op, hs *history, born time.Time) error {
	switch op.K {
	case "save":
		var d model.NormalizedDocument
		for _, sv := range op.Saves {
			d.Fields = append(d.Fields, sv.F())
		}
		l := hs.begin(op.Saves)
		index.NewIndex(s).IndexDocument(op.Doc, d)
		hs.finish(l)
		return nil
	case "until":
		if d := time.Duration(op.Ms)*time.Millisecond - time.Since(born); d > 0 {
			time.Sleep(d)
		}
		return nil
	}
	start := hs.now()
	switch op.K {
	case "search":
		got := search.NewStandard(index.NewIndex(s)).Search(h.ToQueries(op.Qs))
		lower, upper := hs.bounds(start, hs.now())
		if err := h.SearchBetween(got, op.Qs, lower, upper); err != nil {
			return fmt.Errorf("search %v: %w", op.Qs, err)
		}
	case "fields":
		got := s.GetFields(op.Docs, op.Field)
		lower, upper := hs.bounds(start, hs.now())
		for _, d := range op.Docs {
			g, has := got[d]
			if _, must := lower.Fields[d][op.Field]; must && !has {
				return fmt.Errorf("field %q of %q was saved before but is not returned", op.Field, d)
			}
			if has {
				w, may := upper.Fields[d][op.Field]
				if !may {
					return fmt.Errorf("field %q of %q is returned but no save had started", op.Field, d)
				}
				if err := h.SameField(g, w); err != nil {
					return fmt.Errorf("field %q of %q: %w", op.Field, d, err)
				}
			}
		}
	case "docs":
		for _, t := range op.Terms {
			start := hs.now()
			set, _ := s.GetDocuments(op.Field, t)
			data := set.GetData()
			lower, upper := hs.bounds(start, hs.now())
			for d := range lower.Post[op.Field][t] {
				if !data[d] {
					return fmt.Errorf("document %q of term %q was saved before but is not returned", d, t)
				}
			}
			for d := range data {
				if !upper.Post[op.Field][t][d] {
					return fmt.Errorf("document %q of term %q is returned but no save had started", d, t)
				}
			}
		}
	case "index":
		idx := s.GetIndex(op.Field)
		lower, upper := hs.bounds(start, hs.now())
		for t, ds := range lower.Post[op.Field] {
			for d := range ds {
				if idx[t] == nil || !idx[t].Contains(d) {
					return fmt.Errorf("the index lacks document %q of term %q", d, t)
				}
			}
		}
		for t, set := range idx {
			for d := range set.GetData() {
				if !upper.Post[op.Field][t][d] {
					return fmt.Errorf("the index holds document %q of term %q, whose save had not started", d, t)
				}
			}
		}
	case "df":
		got := s.GetNumberFieldTerm(op.Field, op.Terms)
		lower, upper := hs.bounds(start, hs.now())
		for _, t := range op.Terms {
			if g := got[t]; g < lower.DF[op.Field][t] || g > upper.DF[op.Field][t] {
				return fmt.Errorf("%d documents with term %q, want %d..%d", g, t, lower.DF[op.Field][t], upper.DF[op.Field][t])
			}
		}
	case "stats":
		n, l := s.GetFieldSize(op.Field), s.GetFieldLength(op.Field)
		lower, upper := hs.bounds(start, hs.now())
		if n < lower.Size[op.Field] || n > upper.Size[op.Field] || l < lower.Length[op.Field] || l > upper.Length[op.Field] {
			return fmt.Errorf("size %d, length %d of %q, want %d..%d, %d..%d", n, l, op.Field,
				lower.Size[op.Field], upper.Size[op.Field], lower.Length[op.Field], upper.Length[op.Field])
		}
	}
	return nil
}

func threads(s storage.Storage, c Case, hs *history) error {
	base := c.Base
	if c.Bulk != nil {
		base = append(base[:len(base):len(base)], h.Op{K: "bulk", Bulk: c.Bulk}.Saves()...)
	}
	for _, sv := range base {
		l := hs.begin([]h.Save{sv})
		s.SaveOrUpdate(sv.Doc, sv.F())
		hs.finish(l)
	}
	born := time.Now()
	errs := make(chan error, len(c.Threads))
	for g, ops := range c.Threads {
		go func() {
			var err error
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
				if err != nil {
					err = fmt.Errorf("goroutine %d: %w", g, err)
				}
				errs <- err
			}()
			for i, op := range ops {
				n := 1
				if op.K != "save" && op.K != "until" {
					n = c.Repeat
				}
				for ; n > 0; n-- {
					if err = run1(s, op, hs, born); err != nil {
						err = fmt.Errorf("op %d: %w", i, err)
						return
					}
				}
			}
		}()
	}
	var first error
	for range c.Threads {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	if first != nil {
		return first
	}
	_, all := hs.bounds(0, hs.now())
	return all.Compare(s)
}

func check(t *testing.T, c Case, o *h.Obs) error {
	hs := &history{}
	savers, readers := 0, 0
	for _, th := range c.Threads {
		w, r := 0, 0
		for _, op := range th {
			if op.K == "save" {
				w = 1
			} else if op.K != "until" {
				r = 1
			}
		}
		savers += w
		readers += r
	}
	o.Nontrivial(savers >= 1 && savers+readers >= 2)
	o.Class(savers >= 2, "several savers")
	o.Class(savers >= 1 && readers >= 1, "savers and readers")
	o.Class(c.Disk, "disk")
	o.Class(c.Bulk != nil, "many documents")
	if !c.Disk {
		return h.InSession(t, func() error { return threads(storage.NewMemory(), c, hs) })
	}
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	for life := 0; life < 2; life++ {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, c.Cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if life == 0 {
				if err := threads(s, c, hs); err != nil {
					return err
				}
			}
			h.Sleep(h.Settle)
			_, all := hs.bounds(0, hs.now())
			return all.Compare(s)
		})
		if err != nil {
			return fmt.Errorf("life %d: %w", life, err)
		}
	}
	return nil
}

func gen(t *rapid.T) Case {
	c := Case{Disk: rapid.IntRange(0, 3).Draw(t, "disk") > 0, Cache: rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "cache"),
		Repeat: rapid.IntRange(1, 6).Draw(t, "repeat")}
	fields := h.Distinct(t, rapid.StringMatching(`f[0-9]`), 1, 3, "fields")
	docs := h.Distinct(t, rapid.StringMatching(`d[0-9a-z]`), 1, 12, "docs")
	terms := h.Distinct(t, rapid.StringMatching(`[a-h]`), 1, 6, "terms")
	if rapid.IntRange(0, 39).Draw(t, "large") == 0 {
		c.Bulk = h.DrawBulk(t, fields, 1, 900)
		terms = append(terms, "all", "m0", "w0")
		if !slices.Contains(fields, c.Bulk.Field) {
			fields = append(fields, c.Bulk.Field)
		}
		c.Repeat = 1
	}
	used := map[[2]string]bool{}
	draw := func() (string, []h.Save) {
		d := rapid.SampledFrom(docs).Draw(t, "doc")
		var l []h.Save
		for _, f := range rapid.Permutation(fields).Draw(t, "fs")[:rapid.IntRange(1, len(fields)).Draw(t, "nf")] {
			if !used[[2]string{d, f}] {
				used[[2]string{d, f}] = true
				tf, n := h.DrawTF(t, terms, 6)
				l = append(l, h.Save{Doc: d, Field: f, TF: tf, Len: n})
			}
		}
		return d, l
	}
	for n := rapid.IntRange(0, 4).Draw(t, "base"); n > 0; n-- {
		_, l := draw()
		c.Base = append(c.Base, l...)
	}
	for n := rapid.IntRange(2, 6).Draw(t, "threads"); n > 0; n-- {
		var th []Op
		for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
			op := Op{K: rapid.SampledFrom([]string{"save", "save", "save", "search", "search", "fields", "docs", "df", "stats", "index", "until"}).Draw(t, "kind")}
			switch op.K {
			case "save":
				op.Doc, op.Saves = draw()
				if len(op.Saves) == 0 {
					continue
				}
			case "until":
				if !c.Disk {
					continue
				}
				op.Ms = rapid.SampledFrom([]int{5000, 7000, 10000, 13000, 15000, 26000, 30000}).Draw(t, "ms")
			case "search":
				op.Qs = h.DrawQueries(t, fields, terms)
			default:
				op.Field = rapid.SampledFrom(fields).Draw(t, "field")
				op.Docs = rapid.SliceOfN(rapid.SampledFrom(docs), 0, 8).Draw(t, "ds")
				op.Terms = rapid.SliceOfN(rapid.SampledFrom(terms), 0, 6).Draw(t, "ts")
			}
			th = append(th, op)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

// ---- saves placed between the reads of a search: the harness owns the schedule

type Inject struct {
	At   int // before the At-th read of the search
	Save h.Save
}

type Sched struct {
	Base    []h.Save
	Qs      []h.Query
	Injects []Inject
}

// between passes every call on and saves at the chosen ones.
type between struct {
	storage.Storage
	mu sync.Mutex
	n  int
	in []Inject
	hs *history
	o  int
}

func (b *between) point() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, x := range b.in {
		if x.At == b.n {
			l := b.hs.begin([]h.Save{x.Save})
			b.Storage.SaveOrUpdate(x.Save.Doc, x.Save.F())
			b.hs.finish(l)
			b.o++
		}
	}
	b.n++
}

func (b *between) GetDocuments(f string, t string) (model.Set, bool) {
	b.point()
	return b.Storage.GetDocuments(f, t)
}
func (b *between) GetFields(ids []string, f string) map[string]model.Field {
	b.point()
	return b.Storage.GetFields(ids, f)
}
func (b *between) GetIndex(f string) map[string]*model.Set {
	b.point()
	return b.Storage.GetIndex(f)
}
func (b *between) GetFieldLength(f string) int {
	b.point()
	return b.Storage.GetFieldLength(f)
}
func (b *between) GetFieldSize(f string) int {
	b.point()
	return b.Storage.GetFieldSize(f)
}
func (b *between) GetNumberFieldTerm(f string, ts []string) map[string]int {
	b.point()
	return b.Storage.GetNumberFieldTerm(f, ts)
}

func sched(c Sched, o *h.Obs) error {
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	hs := &history{}
	mem := storage.NewMemory()
	for _, sv := range c.Base {
		l := hs.begin([]h.Save{sv})
		mem.SaveOrUpdate(sv.Doc, sv.F())
		hs.finish(l)
	}
	s := &between{Storage: mem, in: c.Injects, hs: hs}
	start := hs.now()
	got := search.NewStandard(index.NewIndex(s)).Search(h.ToQueries(c.Qs))
	lower, upper := hs.bounds(start, hs.now())
	if err := h.SearchBetween(got, c.Qs, lower, upper); err != nil {
		return err
	}
	o.Nontrivial(s.o > 0)
	o.Class(s.o > 0 && len(c.Base) == 0, "first documents saved during a search")
	_, all := hs.bounds(0, hs.now())
	return all.Compare(mem)
}

func genSched(t *rapid.T) Sched {
	var c Sched
	fields, terms := []string{"f", "g"}, []string{"a", "b", "c"}
	n := 0
	save := func() h.Save {
		n++
		tf, l := h.DrawTF(t, terms, 3)
		return h.Save{Doc: fmt.Sprintf("d%d", n), Field: rapid.SampledFrom(fields).Draw(t, "field"), TF: tf, Len: l}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "base"); i > 0; i-- {
		c.Base = append(c.Base, save())
	}
	c.Qs = h.DrawQueries(t, fields, terms)
	for i := rapid.IntRange(1, 4).Draw(t, "injects"); i > 0; i-- {
		c.Injects = append(c.Injects, Inject{rapid.IntRange(0, 14).Draw(t, "at"), save()})
	}
	return c
}

// ---- operations placed at the file operations of others

// Step is one operation and those that another goroutine starts when it, or the background work during it, is about
// to do its At-th file operation.
type Step struct {
	Op  Op // with "until": Ms of fake time pass
	At  int
	Act []Op
}

type Mid struct {
	Cache int
	Base  []h.Save
	Steps []Step
}

func mid(t *testing.T, c Mid, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	hs := &history{}
	for life := 0; life < 2; life++ {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, c.Cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if life == 0 {
				for _, sv := range c.Base {
					l := hs.begin([]h.Save{sv})
					s.SaveOrUpdate(sv.Doc, sv.F())
					hs.finish(l)
				}
				h.Sleep(h.Settle)
				for i, st := range c.Steps {
					if err := step(dir, s, st, hs, o); err != nil {
						return fmt.Errorf("step %d (%s): %w", i, st.Op.K, err)
					}
					_, all := hs.bounds(0, hs.now())
					if err := all.Compare(s); err != nil {
						return fmt.Errorf("after step %d (%s): %w", i, st.Op.K, err)
					}
				}
			}
			h.Sleep(h.Settle)
			_, all := hs.bounds(0, hs.now())
			return all.Compare(s)
		})
		if err != nil {
			return fmt.Errorf("life %d: %w", life, err)
		}
	}
	return nil
}

func step(dir string, s storage.Storage, st Step, hs *history, o *h.Obs) error {
	var n atomic.Int64
	res := make(chan error, 1)
	var started atomic.Bool
	files.On(dir, func(op, path string) {
		if n.Add(1) != int64(st.At)+1 {
			return
		}
		started.Store(true)
		var done atomic.Bool
		go func() {
			var err error
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
				done.Store(true)
				res <- err
			}()
			for i, a := range st.Act {
				if err = run1(s, a, hs, time.Now()); err != nil {
					err = fmt.Errorf("operation %d (%s) at a file operation (%s): %w", i, a.K, op, err)
					return
				}
			}
		}()
		// it may have to wait for the one that does the file operation: real time, not that of the session
		for i := 0; i < 40 && !done.Load(); i++ {
			syscall.Nanosleep(&syscall.Timespec{Nsec: 25000}, nil)
		}
		if done.Load() {
			o.Class(true, "all done before the file operation")
		} else {
			o.Class(true, "waited for the file operation")
		}
		o.Class(op == "read" || op == "openread" || op == "opendir", "at a read of a file")
		o.Class(op == "write" || op == "open" || op == "rename" || op == "remove", "at a change of a file")
	})
	var err error
	if st.Op.K == "until" {
		h.Sleep(time.Duration(st.Op.Ms) * time.Millisecond)
	} else {
		err = run1(s, st.Op, hs, time.Now())
	}
	files.Off()
	h.Sleep(0)
	if started.Load() {
		o.Evals(1)
		o.Nontrivial(true)
		if e := <-res; e != nil && err == nil {
			err = e
		}
	}
	return err
}

func genMid(t *rapid.T) Mid {
	c := Mid{Cache: rapid.SampledFrom([]int{1, 1, 2, 3, 100}).Draw(t, "cache")}
	fields, docs, terms := []string{"f", "g", "h"}, []string{"d0", "d1", "d2", "d3"}, []string{"a", "b", "c", "d"}
	used := map[[2]string]bool{}
	draw := func() (string, []h.Save) {
		d := rapid.SampledFrom(docs).Draw(t, "doc")
		var l []h.Save
		for _, f := range rapid.Permutation(fields).Draw(t, "fs")[:rapid.IntRange(1, 2).Draw(t, "nf")] {
			if !used[[2]string{d, f}] {
				used[[2]string{d, f}] = true
				tf, n := h.DrawTF(t, terms, 4)
				l = append(l, h.Save{Doc: d, Field: f, TF: tf, Len: n})
			}
		}
		return d, l
	}
	for n := rapid.IntRange(1, 4).Draw(t, "base"); n > 0; n-- {
		_, l := draw()
		c.Base = append(c.Base, l...)
	}
	op := func(kinds []string) Op {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch op.K {
		case "save":
			if op.Doc, op.Saves = draw(); len(op.Saves) > 0 {
				break
			}
			op.K = "fields"
			fallthrough
		default:
			op.Field = rapid.SampledFrom(fields).Draw(t, "field")
			op.Docs = rapid.SliceOfN(rapid.SampledFrom(docs), 1, 4).Draw(t, "ds")
			op.Terms = rapid.SliceOfN(rapid.SampledFrom(terms), 1, 3).Draw(t, "ts")
		case "search":
			op.Qs = h.DrawQueries(t, fields, terms)
		case "until":
			op.Ms = rapid.SampledFrom([]int{5000, 7000, 13000, 15000, 16000}).Draw(t, "ms")
		}
		return op
	}
	for i := rapid.IntRange(1, 5).Draw(t, "steps"); i > 0; i-- {
		st := Step{Op: op([]string{"fields", "until", "search", "until", "save"})}
		st.At = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5, 8}).Draw(t, "at")
		if st.Op.K == "until" {
			st.At = rapid.OneOf(rapid.IntRange(0, 15), rapid.IntRange(0, 60)).Draw(t, "at")
		}
		for k := rapid.IntRange(1, 4).Draw(t, "acts"); k > 0; k-- {
			st.Act = append(st.Act, op([]string{"save", "save", "fields", "search", "df", "docs", "stats", "index"}))
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

var files *h.FileOps

func Test(t *testing.T) {
	files = h.WatchFileOps()
	h.Run(t, h.Sub[Sched]{Name: "between", Quick: 6000, Thorough: 100000, Gen: genSched, Check: sched})
	h.Run(t, h.Sub[Case]{Name: "goroutines", Quick: 2400, Thorough: 40000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return check(t, c, o) }})
	h.Run(t, h.Sub[Mid]{Name: "midfile", Quick: 1600, Thorough: 40000, Gen: genMid,
		Check: func(c Mid, o *h.Obs) error { return mid(t, c, o) }})
}
