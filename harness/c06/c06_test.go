package c06

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Entry puts one document under some terms of a field.
type Entry struct {
	Field string
	Term  h.Str
	Docs  []h.Str
}

type index map[string]map[string]map[string]bool

func (x index) add(es []Entry) {
	for _, e := range es {
		if x[e.Field] == nil {
			x[e.Field] = map[string]map[string]bool{}
		}
		if x[e.Field][string(e.Term)] == nil {
			x[e.Field][string(e.Term)] = map[string]bool{}
		}
		for _, d := range e.Docs {
			x[e.Field][string(e.Term)][string(d)] = true
		}
	}
}

func (x index) clone() index {
	c := index{}
	for f, ts := range x {
		c[f] = map[string]map[string]bool{}
		for t, ds := range ts {
			c[f][t] = map[string]bool{}
			for d := range ds {
				c[f][t][d] = true
			}
		}
	}
	return c
}

// within checks lower <= got <= upper.
func within(got map[string]map[string]*model.Set, lower, upper index) error {
	for f, ts := range lower {
		for t, ds := range ts {
			set := got[f][t]
			if set == nil {
				return fmt.Errorf("term %q of field %q is missing", t, f)
			}
			for d := range ds {
				if !set.Contains(d) {
					return fmt.Errorf("document %q of term %q of field %q is missing", d, t, f)
				}
			}
		}
	}
	for f, ts := range got {
		for t, set := range ts {
			for d := range set.GetData() {
				if !upper[f][t][d] {
					return fmt.Errorf("document %q of term %q of field %q was never written", d, t, f)
				}
			}
		}
	}
	return nil
}

// ---- fragments planted directly, also in the middle of a merge

type Step struct {
	K       string // frag, many, load, open
	N       int    `json:",omitempty"` // many: number of fragments, one entry each
	Entries []Entry
	During  []During `json:",omitempty"` // load: fragments that arrive while it runs
}

type During struct {
	At      int // before the At-th file operation of the load
	Entries []Entry
}

type Case struct{ Steps []Step }

// plant writes a complete fragment in one step, past the hooks of package os.
func plant(root string, n int, es []Entry) {
	byField := map[string][]Entry{}
	for _, e := range es {
		byField[e.Field] = append(byField[e.Field], e)
	}
	for f, l := range byField {
		x := index{}
		x.add(l)
		dir := filepath.Join(root, f)
		syscall.Mkdir(dir, 0o755)
		syscall.Mkdir(filepath.Join(dir, file.Temp), 0o755)
		name := fmt.Sprintf("%08x-0000-4000-8000-%012x", (n*2654435761)%(1<<32), n)
		buf := file.CompressData(storage.SerializeIndex(x[f]))
		fd, err := syscall.Open(filepath.Join(dir, name), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0o644)
		if err != nil {
			panic(err)
		}
		for len(buf) > 0 {
			k, err := syscall.Write(fd, buf)
			if err != nil {
				panic(err)
			}
			buf = buf[k:]
		}
		syscall.Close(fd)
		if err := syscall.Rename(filepath.Join(dir, name), filepath.Join(dir, file.Temp, name)); err != nil {
			panic(err)
		}
	}
}

func pending(root string) (n int) {
	l, _ := filepath.Glob(filepath.Join(root, "*", file.Temp, "*"))
	return len(l)
}

func merge(c Case, o *h.Obs) error {
	root := h.Scratch()
	defer os.RemoveAll(root)
	dio := storage.NewDiskIO(root)
	all := index{}
	n, frags, loads, overlap := 0, 0, 0, false
	for i, s := range c.Steps {
		switch s.K {
		case "frag":
			for _, e := range s.Entries {
				for _, d := range e.Docs {
					overlap = overlap || all[e.Field][string(e.Term)][string(d)]
				}
			}
			n++
			frags++
			plant(root, n, s.Entries)
			all.add(s.Entries)
		case "many":
			for j := 0; j < s.N; j++ {
				e := s.Entries[j%len(s.Entries)]
				e.Docs = append([]h.Str{h.Str(fmt.Sprintf("n%d", j))}, e.Docs...)
				n++
				frags++
				plant(root, n, []Entry{e})
				all.add([]Entry{e})
			}
			overlap = overlap || s.N > 1
		case "open":
			dio = storage.NewDiskIO(root)
		case "load":
			loads++
			lower := all.clone()
			arrived := 0
			k := 0
			stop := h.Watch(func(h.FileOp) error {
				for _, d := range s.During {
					if d.At == k {
						n++
						arrived++
						plant(root, n, d.Entries)
						all.add(d.Entries)
					}
				}
				k++
				return nil
			})
			got, err := dio.LoadIndexOnHD()
			stop()
			if err != nil {
				return fmt.Errorf("step %d: load: %w", i, err)
			}
			o.Class(arrived > 0, "fragment arrives during a merge")
			o.Class(frags > 3, "more than three fragments at once")
			o.Class(frags > 64, "more than 64 fragments at once")
			if err := within(got, lower, all); err != nil {
				return fmt.Errorf("step %d: load: %w", i, err)
			}
			// what is now the merged index is what was returned, and only late fragments are pending
			for f := range all {
				disk, err := storage.LoadTermDocumentsFromIndex(f, root)
				if err != nil {
					return fmt.Errorf("step %d: merged index of %q: %w", i, f, err)
				}
				want := index{}
				for t, set := range got[f] {
					for d := range set.GetData() {
						want.add([]Entry{{f, h.Str(t), []h.Str{h.Str(d)}}})
					}
				}
				if err := within(map[string]map[string]*model.Set{f: disk}, want, want); err != nil {
					return fmt.Errorf("step %d: the merged index is not what was returned: %w", i, err)
				}
			}
			if p := pending(root); arrived == 0 && p > 0 {
				return fmt.Errorf("step %d: %d fragments are pending after the merge", i, p)
			}
			o.Nontrivial(frags >= 2 && overlap)
			frags = arrived
		}
	}
	// once and for all: again at once, and from another process
	for k := 0; k < 3; k++ {
		if k == 2 {
			dio = storage.NewDiskIO(root)
		}
		got, err := dio.LoadIndexOnHD()
		if err != nil {
			return fmt.Errorf("final load %d: %w", k, err)
		}
		if err := within(got, all, all); err != nil {
			return fmt.Errorf("final load %d: %w", k, err)
		}
		if p := pending(root); p > 0 {
			return fmt.Errorf("final load %d: %d fragments are pending", k, p)
		}
	}
	o.Class(loads >= 2, "several merges")
	return nil
}

func entries(t *rapid.T, fields []string, terms, docs []h.Str) []Entry {
	e := rapid.Custom(func(t *rapid.T) Entry {
		return Entry{rapid.SampledFrom(fields).Draw(t, "field"), rapid.SampledFrom(terms).Draw(t, "term"),
			rapid.SliceOfN(rapid.SampledFrom(docs), 1, 4).Draw(t, "docs")}
	})
	l := rapid.SliceOfN(e, 1, 6).Draw(t, "entries")
	if rapid.IntRange(0, 19).Draw(t, "big") == 0 {
		mod := rapid.SampledFrom([]int{1, 2, 37, 5000}).Draw(t, "bigterms")
		for i, n := 0, h.Size(1500).Draw(t, "bign"); i < n; i++ {
			if i < mod {
				l = append(l, Entry{l[0].Field, h.Str(fmt.Sprintf("%s%d", l[0].Term, i)), nil})
			}
			e := &l[len(l)-min(i+1, mod)+i%mod]
			e.Docs = append(e.Docs, h.Str(fmt.Sprintf("d%d", i)))
		}
	}
	return l
}

func pools(t *rapid.T) ([]string, []h.Str, []h.Str) {
	str := func(label string, hi int) []h.Str {
		return rapid.SliceOfNDistinct(h.AnyStr(), 1, hi, func(s h.Str) h.Str { return s }).Draw(t, label)
	}
	return h.Distinct(t, rapid.StringMatching(`[a-z]{1,3}`), 1, 3, "fields"), str("terms", 5), str("docs", 6)
}

func gen(t *rapid.T) Case {
	fields, terms, docs := pools(t)
	var c Case
	n := rapid.IntRange(1, 14).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := Step{K: rapid.SampledFrom([]string{"frag", "frag", "frag", "frag", "frag", "frag", "load", "load", "open", "many"}).Draw(t, "kind")}
		switch s.K {
		case "many":
			if rapid.IntRange(0, 4).Draw(t, "skip") > 0 {
				continue
			}
			s.Entries = entries(t, fields, terms, docs)[:1]
			s.N = h.Size(150).Draw(t, "n")
		case "frag":
			s.Entries = entries(t, fields, terms, docs)
		case "load":
			if rapid.Bool().Draw(t, "busy") {
				for j := rapid.IntRange(1, 2).Draw(t, "late"); j > 0; j-- {
					s.During = append(s.During, During{rapid.IntRange(0, 12).Draw(t, "at"), entries(t, fields, terms, docs)})
				}
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// ---- fragments written by the background writer, merged by the same and by later processes

type Op struct {
	K       string  // send, sleep, load, process
	Entries []Entry `json:",omitempty"`
	Ms      int     `json:",omitempty"`
}

type Flush struct{ Ops []Op }

func flush(t *testing.T, c Flush, o *h.Obs) error {
	root := h.Scratch()
	defer os.RemoveAll(root)
	sent := index{}
	i, writes := 0, 0
	type rec struct {
		at time.Duration
		es []Entry
	}
	durable := index{} // of earlier processes
	for first := true; first || i < len(c.Ops); first = false {
		err := h.InSession(t, func() error {
			dio := storage.NewDiskIO(root)
			ch := make(chan storage.IndexTransferData, 100)
			go dio.SaveIndexOnDisk(ch)
			start := time.Now()
			var log []rec
			load := func() error {
				got, err := dio.LoadIndexOnHD()
				if err != nil {
					return fmt.Errorf("load: %w", err)
				}
				lower := durable.clone()
				for _, r := range log {
					if r.at <= time.Since(start)-h.Settle {
						lower.add(r.es)
					}
				}
				return within(got, lower, sent)
			}
			for ; i < len(c.Ops); i++ {
				op := c.Ops[i]
				switch op.K {
				case "send":
					writes++
					sent.add(op.Entries)
					for _, e := range op.Entries {
						for _, d := range e.Docs {
							ch <- storage.IndexTransferData{FieldName: e.Field, Term: string(e.Term), DocumentId: string(d)}
						}
					}
					log = append(log, rec{time.Since(start), op.Entries})
				case "sleep":
					h.Sleep(time.Duration(op.Ms) * time.Millisecond)
				case "load":
					if err := load(); err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
				case "process":
					i++
					h.Sleep(h.Settle)
					durable = sent.clone()
					return load()
				}
			}
			h.Sleep(h.Settle)
			durable = sent.clone()
			for k := 0; k < 2; k++ {
				if err := load(); err != nil {
					return fmt.Errorf("final load %d: %w", k, err)
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	o.Nontrivial(writes >= 2)
	got, err := (&storage.DiskIO{RootFolder: root}).LoadIndexOnHD()
	if err != nil {
		return fmt.Errorf("load from another process: %w", err)
	}
	return within(got, sent, sent)
}

func genFlush(t *rapid.T) Flush {
	fields, terms, docs := pools(t)
	var c Flush
	n := rapid.IntRange(1, 14).Draw(t, "ops")
	for i := 0; i < n; i++ {
		op := Op{K: rapid.SampledFrom([]string{"send", "send", "send", "sleep", "sleep", "load", "process"}).Draw(t, "kind")}
		switch op.K {
		case "send":
			op.Entries = entries(t, fields, terms, docs)
		case "sleep":
			op.Ms = rapid.SampledFrom([]int{1, 1000, 6000, 12999, 13000, 13001, 20000, 27000}).Draw(t, "ms")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "merge", Quick: 6000, Thorough: 150000, Gen: gen, Check: merge})
	h.Run(t, h.Sub[Flush]{Name: "flush", Quick: 1600, Thorough: 40000, Gen: genFlush,
		Check: func(c Flush, o *h.Obs) error { return flush(t, c, o) }})
}
