package c26

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Store is one of the stores that live in one process.
type Store struct {
	Memory bool
	Folder string
	Cache  int
}

// Step is an operation on one store. A reopen ends the process: all disk stores are opened again, all memory stores
// are new, in the order that Order gives.
type Step struct {
	Store int
	Op    h.Op
}

type Case struct {
	Stores []Store
	Order  []int
	Steps  []Step
}

func run(t *testing.T, c Case, o *h.Obs) error {
	base := h.Scratch()
	defer os.RemoveAll(base)
	models := make([]*h.Model, len(c.Stores))
	for i := range models {
		models[i] = h.NewModel()
	}
	i := 0
	for life := 0; life == 0 || i < len(c.Steps); life++ {
		err := h.InSession(t, func() error {
			stores := make([]storage.Storage, len(c.Stores))
			for _, k := range c.Order {
				if c.Stores[k].Memory {
					stores[k] = storage.NewMemory()
					models[k] = h.NewModel()
					continue
				}
				s, err := storage.NewDiskStore(filepath.Join(base, c.Stores[k].Folder), c.Stores[k].Cache)
				if err != nil {
					return fmt.Errorf("opening store %d: %w", k, err)
				}
				stores[k] = s
			}
			all := func(when string) error {
				for k, s := range stores {
					if err := models[k].Compare(s); err != nil {
						return fmt.Errorf("%s: store %d (%+v) of %d: %w", when, k, c.Stores[k], len(stores), err)
					}
				}
				return nil
			}
			if err := all(fmt.Sprintf("life %d, after opening", life)); err != nil {
				return err
			}
			for ; i < len(c.Steps); i++ {
				st := c.Steps[i]
				if st.Op.K == "reopen" {
					i++
					break
				}
				if err := h.Apply(stores[st.Store], models[st.Store], st.Op); err != nil {
					return fmt.Errorf("step %d (%s on store %d): %w", i, st.Op.K, st.Store, err)
				}
				if len(st.Op.Saves()) > 0 && i%4 == 0 {
					if err := all(fmt.Sprintf("after step %d, a save on store %d", i, st.Store)); err != nil {
						return err
					}
				}
			}
			if err := all(fmt.Sprintf("at the end of life %d", life)); err != nil {
				return err
			}
			h.Sleep(h.Settle)
			return nil
		})
		if err != nil {
			return err
		}
		o.Class(life > 0, "restart")
	}
	return nil
}

func classify(c Case, o *h.Obs) {
	where := map[string]int{} // pair -> store+1
	shared := false
	for _, st := range c.Steps {
		for _, s := range st.Op.Saves() {
			p := s.Doc + "\x00" + s.Field
			if w := where[p]; w != 0 && w != st.Store+1 {
				shared = true
			}
			where[p] = st.Store + 1
		}
	}
	mem, disk := 0, 0
	for _, s := range c.Stores {
		if s.Memory {
			mem++
		} else {
			disk++
		}
	}
	o.Nontrivial(shared)
	o.Class(shared && disk > 1, "two disk stores share names")
	o.Class(shared && mem > 1, "two memory stores share names")
	o.Class(mem > 0 && disk > 0, "both kinds")
}

func gen(t *rapid.T) Case {
	var c Case
	folders := rapid.SampledFrom([][]string{{"a", "b", "c", "d"}, {"a", "a2", "a.b", "A"}, {"x/store", "y/store", "store", "x/store2"},
		{"docs", "index", "temp", "metrics"}, {"%", "%41", "A", "%%"}}).Draw(t, "folders")
	n := rapid.IntRange(2, 4).Draw(t, "stores")
	for i := 0; i < n; i++ {
		c.Stores = append(c.Stores, Store{Memory: rapid.IntRange(0, 2).Draw(t, "memory") == 0, Folder: folders[i], Cache: rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "cache")})
		c.Order = append(c.Order, i)
	}
	c.Order = rapid.Permutation(c.Order).Draw(t, "order")
	// the same history for all, dealt out: names are shared
	var hists []h.Hist
	names := rapid.SampledFrom(h.Distinct(t, h.Name(), 2, 5, "names"))
	for i := 0; i < n; i++ {
		hists = append(hists, h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 2, Fields: 2, Sleep: true, Search: true, Bulk: 4, Names: names}))
	}
	left := 0
	for _, x := range hists {
		left += len(x.Ops)
	}
	for left > 0 {
		k := rapid.IntRange(0, n-1).Draw(t, "store")
		for len(hists[k].Ops) == 0 {
			k = (k + 1) % n
		}
		c.Steps = append(c.Steps, Step{k, hists[k].Ops[0]})
		hists[k].Ops = hists[k].Ops[1:]
		left--
		if rapid.IntRange(0, 11).Draw(t, "restart") == 0 {
			mem := false
			for _, s := range c.Stores {
				mem = mem || s.Memory
			}
			if !mem || rapid.Bool().Draw(t, "loses") {
				c.Steps = append(c.Steps, Step{0, h.Op{K: "reopen"}})
			}
		}
	}
	c.Steps = append(c.Steps, Step{0, h.Op{K: "reopen"}}, Step{0, h.Op{K: "sleep", Ms: 16000}})
	return c
}

// AtOnce is the same as Case, but each store is used by a goroutine of its own. They then all search at once.
type AtOnce struct {
	Stores []Store
	Hists  []h.Hist
	Qs     [][]h.Query
	Rounds int
}

func genAtOnce(t *rapid.T) AtOnce {
	c := AtOnce{Rounds: rapid.SampledFrom([]int{3, 50, 200}).Draw(t, "rounds")}
	names := rapid.SampledFrom(h.Distinct(t, h.Name(), 2, 5, "names"))
	for i, n := 0, rapid.IntRange(2, 5).Draw(t, "stores"); i < n; i++ {
		c.Stores = append(c.Stores, Store{rapid.Bool().Draw(t, "memory"), fmt.Sprint("s", i), rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "cache")})
		hist := h.DrawHist(t, h.Opts{MaxOps: 8, Docs: 5, Fields: 2, Search: true, Bulk: 20, Names: names})
		fs, ts := map[string]bool{"x": true}, map[string]bool{"x": true}
		for _, op := range hist.Ops {
			for _, s := range op.Saves() {
				fs[s.Field] = true
				for x := range s.TF {
					ts[x] = true
				}
			}
		}
		c.Hists = append(c.Hists, hist)
		c.Qs = append(c.Qs, h.DrawQueries(t, h.SortedKeys(fs), h.SortedKeys(ts)))
	}
	return c
}

func atOnce(t *testing.T, c AtOnce, o *h.Obs) error {
	base := h.Scratch()
	defer os.RemoveAll(base)
	different := map[string]bool{}
	for _, hist := range c.Hists {
		b, _ := json.Marshal(hist)
		different[string(b)] = true
	}
	o.Nontrivial(len(different) > 1)
	models := make([]*h.Model, len(c.Stores))
	err := h.InSession(t, func() error {
		stores := make([]storage.Storage, len(c.Stores))
		for k, st := range c.Stores {
			models[k] = h.NewModel()
			if st.Memory {
				stores[k] = storage.NewMemory()
				continue
			}
			s, err := storage.NewDiskStore(filepath.Join(base, st.Folder), st.Cache)
			if err != nil {
				return fmt.Errorf("opening store %d: %w", k, err)
			}
			stores[k] = s
		}
		errs := make(chan error, len(stores))
		for k := range stores {
			go func() {
				var err error
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("store %d: panic: %v", k, r)
					}
					errs <- err
				}()
				for i, op := range c.Hists[k].Ops {
					if op.K == "reopen" {
						continue
					}
					if err = h.Apply(stores[k], models[k], op); err != nil {
						err = fmt.Errorf("store %d, operation %d (%s): %w", k, i, op.K, err)
						return
					}
				}
				want := models[k].Search(c.Qs[k])
				for i := 0; i < c.Rounds; i++ {
					if err = h.CheckRanking(search.NewStandard(index.NewIndex(stores[k])).Search(h.ToQueries(c.Qs[k])), want); err != nil {
						err = fmt.Errorf("store %d, search %d of %v while others search other stores: %w", k, i, c.Qs[k], err)
						return
					}
				}
			}()
		}
		var first error
		for range stores {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		for k, s := range stores {
			if err := models[k].Compare(s); err != nil && first == nil {
				first = fmt.Errorf("store %d (%+v) of %d, when all are done: %w", k, c.Stores[k], len(stores), err)
			}
		}
		h.Sleep(h.Settle)
		return first
	})
	if err != nil {
		return err
	}
	return h.InSession(t, func() error {
		for k, st := range c.Stores {
			if st.Memory {
				continue
			}
			s, err := storage.NewDiskStore(filepath.Join(base, st.Folder), st.Cache)
			if err != nil {
				return fmt.Errorf("opening store %d again: %w", k, err)
			}
			if err := models[k].Compare(s); err != nil {
				return fmt.Errorf("store %d (%+v) of %d, after a restart: %w", k, st, len(c.Stores), err)
			}
		}
		return nil
	})
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[AtOnce]{Name: "at once", Quick: 400, Thorough: 10000, Gen: genAtOnce,
		Check: func(c AtOnce, o *h.Obs) error { return atOnce(t, c, o) }})
	h.Run(t, h.Sub[Case]{Name: "stores", Quick: 2000, Thorough: 40000, Gen: gen,
		Check: func(c Case, o *h.Obs) error {
			classify(c, o)
			return run(t, c, o)
		}})
}
