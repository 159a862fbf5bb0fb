package c23

import (
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Read is one read by some route. Spoil then changes what was returned.
type Read struct {
	K     string // docs, index, fields, df, stats, look, search, wait
	Field string
	Docs  []string
	Terms []string
	Qs    []h.Query
	Ms    int
	Spoil bool
}

// Phase saves, then only reads.
type Phase struct {
	Saves  []h.Op
	Reads  []Read
	Reopen bool
}

type Case struct {
	Cache  int
	Phases []Phase
}

func spoilSet(d map[string]bool) {
	for k := range d {
		delete(d, k)
		break
	}
	for k := range d {
		d[k] = false
		break
	}
	d["spoiled"] = true
}

// kept is an answer that the caller keeps: it must stay what it was.
type kept struct {
	what string
	live any
	was  string
}

func do(s storage.Storage, r Read, keep func(string, any)) error {
	docs := append([]string(nil), r.Docs...)
	terms := append([]string(nil), r.Terms...)
	defer func() {
		for i := range docs { // the caller goes on using his own lists
			docs[i] = "reused"
		}
		for i := range terms {
			terms[i] = "reused"
		}
	}()
	switch r.K {
	case "docs":
		for _, t := range r.Terms {
			if set, ok := s.GetDocuments(r.Field, t); ok && r.Spoil {
				set.Add("spoiled too")
				spoilSet(set.GetData())
				set.Remove("spoiled")
			}
		}
	case "index":
		idx := s.GetIndex(r.Field)
		if r.Spoil && idx != nil {
			for t, set := range idx {
				set.Add("spoiled too")
				spoilSet(set.GetData())
				if t != "" {
					delete(idx, t)
				}
			}
			idx["spoiled"] = model.NewSet()
		}
	case "fields":
		got := s.GetFields(docs, r.Field)
		if !reflect.DeepEqual(docs, append([]string(nil), r.Docs...)) {
			return fmt.Errorf("GetFields changed the caller's list")
		}
		if r.Spoil {
			for d := range got {
				got[d] = model.Field{Name: "spoiled", Length: 7}
			}
			got["spoiled"] = model.Field{}
		} else {
			keep("GetFields", got)
		}
	case "df":
		got := s.GetNumberFieldTerm(r.Field, terms)
		if r.Spoil {
			for t := range got {
				got[t] = 99
			}
			got["spoiled"] = 1
		} else {
			keep("GetNumberFieldTerm", got)
		}
	case "stats":
		s.GetFieldSize(r.Field)
		s.GetFieldLength(r.Field)
	case "look":
		res := index.NewIndex(s).Search(terms, r.Field)
		if r.Spoil {
			for d := range res.FieldDocuments {
				delete(res.FieldDocuments, d)
			}
			for t := range res.NumFieldsWithTerm {
				res.NumFieldsWithTerm[t] = 99
			}
		} else {
			keep("Index.Search", res.FieldDocuments)
			keep("Index.Search", res.NumFieldsWithTerm)
		}
	case "search":
		qs := h.ToQueries(r.Qs)
		a := search.NewStandard(index.NewIndex(s)).Search(qs)
		if !reflect.DeepEqual(qs, h.ToQueries(r.Qs)) {
			return fmt.Errorf("search changed the caller's query")
		}
		b := search.NewStandard(index.NewIndex(s)).Search(qs)
		m := map[string]float64{}
		for _, d := range a {
			m[d.Id] = d.Score
		}
		if len(m) != len(a) {
			return fmt.Errorf("search returned a document twice")
		}
		if err := h.CheckRanking(b, m); err != nil {
			return fmt.Errorf("repeating the search %v: %w", r.Qs, err)
		}
		if r.Spoil {
			for i := range a {
				a[i] = model.DocumentScore{}
			}
		} else {
			keep("Search", a)
			keep("the second Search", b)
		}
	case "wait":
		h.Sleep(time.Duration(r.Ms) * time.Millisecond)
	}
	if !reflect.DeepEqual(docs, append([]string(nil), r.Docs...)) || !reflect.DeepEqual(terms, append([]string(nil), r.Terms...)) {
		return fmt.Errorf("%s changed the caller's list", r.K)
	}
	return nil
}

func phase(s storage.Storage, m *h.Model, p Phase, disk bool, o *h.Obs) error {
	for _, op := range p.Saves {
		for _, sv := range op.Saves() {
			s.SaveOrUpdate(sv.Doc, sv.F())
			m.Add(sv)
		}
	}
	var all []kept
	keep := func(what string, live any) { all = append(all, kept{what, live, fmt.Sprintf("%+v", live)}) }
	for i, r := range p.Reads {
		if r.K == "wait" && !disk {
			continue
		}
		if err := do(s, r, keep); err != nil {
			return fmt.Errorf("read %d: %w", i, err)
		}
		if err := m.Compare(s); err != nil {
			return fmt.Errorf("after read %d (%s, spoiled %v): %w", i, r.K, r.Spoil, err)
		}
		if r.K == "search" {
			if err := h.DoSearch(s, m, r.Qs); err != nil {
				return fmt.Errorf("after read %d: %w", i, err)
			}
		}
		for _, k := range all {
			if is := fmt.Sprintf("%+v", k.live); is != k.was {
				return fmt.Errorf("after read %d (%s) an earlier answer of %s has changed: it was %.300s, it is %.300s", i, r.K, k.what, k.was, is)
			}
		}
		o.Nontrivial(r.Spoil && len(m.Saves) >= 2)
		o.Class(r.Spoil, "spoiled "+r.K)
	}
	return m.Compare(s)
}

func check(t *testing.T, c Case, o *h.Obs) error {
	mem, m := storage.NewMemory(), h.NewModel()
	for i, p := range c.Phases {
		if err := phase(mem, m, p, false, o); err != nil {
			return fmt.Errorf("memory, phase %d: %w", i, err)
		}
	}
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	m = h.NewModel()
	i := 0
	for done := false; !done; {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, c.Cache)
			if err != nil {
				return err
			}
			if err := m.Compare(s); err != nil {
				return fmt.Errorf("after a restart: %w", err)
			}
			if i >= len(c.Phases) {
				done = true
				return nil
			}
			for i < len(c.Phases) {
				p := c.Phases[i]
				i++
				if err := phase(s, m, p, true, o); err != nil {
					return fmt.Errorf("phase %d: %w", i-1, err)
				}
				if p.Reopen {
					break
				}
			}
			h.Sleep(h.Settle)
			return nil
		})
		if err != nil {
			return fmt.Errorf("disk: %w", err)
		}
	}
	return nil
}

func gen(bulk int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		return draw(t, bulk)
	}
}

func draw(t *rapid.T, bulk int) Case {
	hist := h.DrawHist(t, h.Opts{MaxOps: 14, Docs: 6, Fields: 3, NoReads: true, Bulk: bulk})
	fs, ts, ds := map[string]bool{"x": true}, map[string]bool{"x": true}, map[string]bool{"x": true}
	popular := ""
	for _, op := range hist.Ops {
		if b := op.Bulk; b != nil && bulk > 100 && b.Mod > 0 && rapid.Bool().Draw(t, "popular") {
			b.Mod = 1
			for x := range op.Saves()[0].TF {
				popular = x
			}
		}
		for _, s := range op.Saves() {
			fs[s.Field], ds[s.Doc] = true, true
			for x := range s.TF {
				ts[x] = true
			}
		}
	}
	fields, terms, docs := h.SortedKeys(fs), h.SortedKeys(ts), h.SortedKeys(ds)
	if popular != "" {
		for i := len(terms) / 2; i >= 0; i-- { // every third term that is read
			terms = append(terms, popular)
		}
	}
	c := Case{Cache: hist.Cache}
	ops := hist.Ops
	n := rapid.IntRange(1, 3).Draw(t, "phases")
	for i := 0; i < n; i++ {
		k := len(ops)
		if i < n-1 {
			k = rapid.IntRange(0, len(ops)).Draw(t, "cut")
		}
		p := Phase{Saves: ops[:k], Reopen: rapid.Bool().Draw(t, "reopen")}
		ops = ops[k:]
		for j := rapid.IntRange(1, 5).Draw(t, "reads"); j > 0; j-- {
			r := Read{K: rapid.SampledFrom([]string{"docs", "index", "fields", "df", "stats", "look", "search", "wait"}).Draw(t, "kind"),
				Spoil: rapid.IntRange(0, 3).Draw(t, "spoil") > 0}
			switch r.K {
			case "search":
				r.Qs = h.DrawQueries(t, fields, terms)
			case "wait":
				r.Ms = rapid.SampledFrom([]int{5000, 13000, 15000, 31000}).Draw(t, "ms")
			default:
				r.Field = rapid.SampledFrom(fields).Draw(t, "field")
				r.Docs = rapid.SliceOfN(rapid.SampledFrom(docs), 0, 8).Draw(t, "docs")
				r.Terms = rapid.SliceOfN(rapid.SampledFrom(terms), 0, 6).Draw(t, "terms")
			}
			p.Reads = append(p.Reads, r)
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "reads", Quick: 1600, Thorough: 40000, Gen: gen(20),
		Check: func(c Case, o *h.Obs) error { return check(t, c, o) }})
	h.Run(t, h.Sub[Case]{Name: "large", Quick: 80, Thorough: 2000, Gen: gen(2600),
		Check: func(c Case, o *h.Obs) error { return check(t, c, o) }})
}
