package c28

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func classify(hist h.Hist, o *h.Obs) {
	saved, indexed := map[string]bool{}, map[string]bool{}
	first, both, restart := false, false, false
	for _, op := range hist.Ops {
		for _, s := range op.Saves() {
			k := s.Doc + "\x00" + s.Field
			saved[k] = true
			both = both || indexed[k]
		}
		if op.K == "index" {
			k := op.Save.Doc + "\x00" + op.Save.Field
			indexed[k] = true
			first = first || !saved[k]
			both = both || saved[k]
		}
		restart = restart || op.K == "reopen" && len(indexed) > 0
	}
	o.Nontrivial(len(indexed) > 0 && len(saved) > 0)
	o.Class(first, "indexed but not saved")
	o.Class(both, "indexed and saved")
	o.Class(restart, "restart after an index operation")
}

// Together is work of several goroutines: each adds its own entries to the index, saves and reads.
type Together struct {
	Disk    bool
	Cache   int
	Threads [][]h.Op
	Ticks   []int // when each operation of a thread starts, in seconds
}

func together(t *testing.T, c Together, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	m := h.NewModel()
	o.Nontrivial(len(c.Threads) > 1)
	o.Class(c.Disk, "disk")
	err := h.InSession(t, func() error {
		var s storage.Storage = storage.NewMemory()
		kind := "memory"
		if c.Disk {
			var err error
			if s, err = storage.NewDiskStore(dir, c.Cache); err != nil {
				return fmt.Errorf("open: %w", err)
			}
			kind = "disk"
		}
		born := time.Now()
		var wg sync.WaitGroup
		for _, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, op := range ops {
					if d := time.Duration(c.Ticks[i%len(c.Ticks)])*time.Second - time.Since(born); d > 0 {
						time.Sleep(d)
					}
					switch op.K {
					case "save":
						s.SaveOrUpdate(op.Save.Doc, op.Save.F())
					case "index":
						s.UpdateIndex(op.Save.Doc, op.Save.F())
					case "search":
						search.NewStandard(index.NewIndex(s)).Search(h.ToQueries(op.Qs))
					case "fields":
						s.GetFields(op.Docs, op.Field)
					case "docs":
						for _, t := range op.Terms {
							set, _ := s.GetDocuments(op.Field, t)
							for range set.GetData() {
							}
						}
					case "df":
						s.GetNumberFieldTerm(op.Field, op.Terms)
					case "stats":
						s.GetFieldSize(op.Field)
						s.GetFieldLength(op.Field)
						for range s.GetIndex(op.Field) {
						}
					}
				}
			}()
		}
		wg.Wait()
		for _, ops := range c.Threads {
			for _, op := range ops {
				switch op.K {
				case "save":
					m.Add(*op.Save)
				case "index":
					sv := *op.Save
					sv.Only = kind
					m.Add(sv)
				}
			}
		}
		if err := m.Compare(s); err != nil {
			return fmt.Errorf("when all goroutines are done: %w", err)
		}
		h.Sleep(h.Settle)
		return nil
	})
	if err != nil || !c.Disk {
		return err
	}
	return h.InSession(t, func() error {
		s, err := storage.NewDiskStore(dir, c.Cache)
		if err != nil {
			return fmt.Errorf("open again: %w", err)
		}
		if err := m.Compare(s); err != nil {
			return fmt.Errorf("after a restart: %w", err)
		}
		return nil
	})
}

func genTogether(t *rapid.T) Together {
	c := Together{Disk: rapid.IntRange(0, 2).Draw(t, "disk") > 0, Cache: rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "cache")}
	names := rapid.SampledFrom(h.Distinct(t, h.Name(), 2, 4, "names"))
	n := rapid.IntRange(2, 4).Draw(t, "threads")
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		hist := h.DrawHist(t, h.Opts{MaxOps: 14, Docs: 2, Fields: 2, Search: true, Index: true, Names: names})
		var ops []h.Op
		for _, op := range hist.Ops {
			if op.K == "save" { // each field of a document is saved once
				k := op.Save.Doc + "\x00" + op.Save.Field
				if used[k] {
					op.K = "index"
				}
				used[k] = true
			}
			ops = append(ops, op)
		}
		c.Threads = append(c.Threads, ops)
	}
	c.Ticks = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 5, 7, 10, 13, 15, 26, 30}), 1, 5).Draw(t, "ticks")
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[h.Hist]{Name: "memory", Quick: 2000, Thorough: 60000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 25, Docs: 4, Fields: 3, Search: true, Index: true})
		},
		Check: func(hist h.Hist, o *h.Obs) error {
			classify(hist, o)
			s := storage.NewMemory()
			m := h.NewModel()
			for i, op := range hist.Ops {
				if err := h.Apply(s, m, op); err != nil {
					return fmt.Errorf("op %d (%s): %w", i, op.K, err)
				}
				if err := m.Compare(s); err != nil {
					return fmt.Errorf("after op %d (%s): %w", i, op.K, err)
				}
			}
			return nil
		}})
	h.Run(t, h.Sub[h.Hist]{Name: "disk", Quick: 1600, Thorough: 40000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 25, Docs: 4, Fields: 3, Search: true, Index: true, Sleep: true, Reopen: true})
		},
		Check: func(hist h.Hist, o *h.Obs) error {
			classify(hist, o)
			dir := h.Scratch()
			defer os.RemoveAll(dir)
			return h.DiskSessions(t, dir, hist, hist.Cache%2 == 0)
		}})
	h.Run(t, h.Sub[Together]{Name: "together", Quick: 800, Thorough: 16000, Gen: genTogether,
		Check: func(c Together, o *h.Obs) error { return together(t, c, o) }})
}
