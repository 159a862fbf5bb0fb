package c07

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Case struct {
	h.Hist
	Procs   int
	Queries [][]h.Query
}

func gen(o h.Opts) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		o.NoReads = true
		hist := h.DrawHist(t, o)
		var fields, terms []string
		fs, ts := map[string]bool{}, map[string]bool{"x": true}
		at := map[string]map[string]bool{}
		for _, op := range hist.Ops {
			for _, s := range op.Saves() {
				fs[s.Field] = true
				if at[s.Field] == nil {
					at[s.Field] = map[string]bool{}
				}
				for x := range s.TF {
					ts[x], at[s.Field][x] = true, true
				}
			}
		}
		fields, terms = h.SortedKeys(fs), h.SortedKeys(ts)
		known := map[string][]string{}
		for f, x := range at {
			known[f] = h.SortedKeys(x)
		}
		c := Case{Hist: hist, Procs: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "procs")}
		for i := rapid.IntRange(1, 4).Draw(t, "nsearch"); i > 0; i-- {
			c.Queries = append(c.Queries, h.DrawQueriesOf(t, fields, terms, known))
		}
		return c
	}
}

func searches(s storage.Storage, m *h.Model, c Case, o *h.Obs) error {
	for i, qs := range c.Queries {
		want := m.Search(qs)
		arg := h.ToQueries(qs)
		for k := 0; k < 2; k++ {
			got := search.NewStandard(index.NewIndex(s)).Search(arg)
			if err := h.CheckRanking(got, want); err != nil {
				return fmt.Errorf("search %d %v: %w", i, qs, err)
			}
		}
		if !reflect.DeepEqual(arg, h.ToQueries(qs)) {
			return fmt.Errorf("search %d changed the query", i)
		}
		o.Evals(2)
		distinct := map[string]bool{}
		for _, q := range qs {
			distinct[q.Field] = true
		}
		o.Nontrivial(len(want) >= 2)
		o.Class(len(want) == 0, "no match")
		o.Class(len(want) > 50, "over 50 matches")
		o.Class(len(distinct) >= 2 && len(want) > 0, "several fields")
		o.Class(len(qs) > len(distinct), "a field queried twice")
		for _, q := range qs {
			o.Class(len(q.Terms) > 16, "more terms than goroutines at once")
			o.Class(q.Boost == 0, "boost 0")
			seen := map[string]bool{}
			for _, t := range q.Terms {
				o.Class(seen[t], "repeated query term")
				seen[t] = true
			}
		}
	}
	return nil
}

func check(t *testing.T, c Case, o *h.Obs) error {
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	mem := storage.NewMemory()
	m := h.NewModel()
	for _, op := range c.Ops {
		for _, s := range op.Saves() {
			mem.SaveOrUpdate(s.Doc, s.F())
			m.Add(s)
		}
	}
	if err := searches(mem, m, c, o); err != nil {
		return fmt.Errorf("memory: %w", err)
	}
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	for life := 0; life < 2; life++ {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, c.Cache)
			if err != nil {
				return err
			}
			if life == 0 {
				for _, op := range c.Ops {
					for _, sv := range op.Saves() {
						s.SaveOrUpdate(sv.Doc, sv.F())
					}
					h.Sleep(op.Dur())
				}
			}
			if err := searches(s, m, c, o); err != nil {
				return err
			}
			h.Sleep(h.Settle)
			return searches(s, m, c, o)
		})
		if err != nil {
			return fmt.Errorf("disk, life %d: %w", life, err)
		}
	}
	return nil
}

func Test(t *testing.T) {
	run := func(c Case, o *h.Obs) error { return check(t, c, o) }
	h.Run(t, h.Sub[Case]{Name: "small", Quick: 5000, Thorough: 50000, Check: run,
		Gen: gen(h.Opts{MaxOps: 30, Docs: 9, MinDocs: 3, Fields: 3, Sleep: true})})
	h.Run(t, h.Sub[Case]{Name: "large", Quick: 500, Thorough: 3000, Check: run,
		Gen: gen(h.Opts{MaxOps: 14, Docs: 9, Fields: 2, Sleep: true, Bulk: 1500, MaxCache: 300})})
}
