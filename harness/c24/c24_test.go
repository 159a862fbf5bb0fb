package c24

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Round is one life of the process, with file operations that fail.
type Round struct {
	h.Hist
	Faults []h.Fault
	Open   bool // operations may fail while the folder is opened, too
}

type Case struct{ Rounds []Round }

type saved struct {
	s          h.Save
	start, end time.Time
}

func run(t *testing.T, c Case, o *h.Obs) error {
	lower, upper := h.NewModel(), h.NewModel()
	tree := map[string]string{}
	for r, round := range c.Rounds {
		dir := h.Scratch()
		h.Plant(dir, tree)
		var mu sync.Mutex
		var log []*saved
		var f *h.Faults
		var end time.Time
		var bad error
		if round.Open {
			f = h.Inject(dir, round.Faults)
		}
		opened := false
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, round.Cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			opened = true
			if !round.Open {
				f = h.Inject(dir, round.Faults)
			}
			live := func(when string) {
				mu.Lock()
				lo, up := lower.Clone(), upper.Clone()
				for _, l := range log {
					lo.Add(l.s)
					up.Add(l.s)
				}
				mu.Unlock()
				n := f.Count()
				err := h.Between(lo, up, s)
				if err != nil && f.Count() == n && bad == nil {
					bad = fmt.Errorf("%s (%d failures so far: %s): %w", when, n, strings.Join(f.Log, "; "), err)
				}
				o.Class(n > 0, "judged live after failures")
			}
			live("after opening")
			for i, op := range round.Ops {
				if op.K == "sleep" {
					h.Sleep(op.Dur())
				}
				for _, sv := range op.Saves() {
					rec := &saved{s: sv, start: time.Now()}
					mu.Lock()
					log = append(log, rec)
					mu.Unlock()
					s.SaveOrUpdate(sv.Doc, sv.F())
					mu.Lock()
					rec.end = time.Now()
					mu.Unlock()
				}
				if i%3 == 0 {
					live(fmt.Sprintf("live after operation %d", i))
				}
			}
			h.Sleep(0)
			mu.Lock()
			end = time.Now()
			mu.Unlock()
			return bad
		})
		if f == nil {
			f = &h.Faults{}
		}
		f.Stop()
		if bad != nil {
			return fmt.Errorf("round %d: %w", r, bad)
		}
		mu.Lock()
		n := f.N
		if err != nil && (n == 0 || strings.HasPrefix(err.Error(), "blocked")) {
			return fmt.Errorf("round %d (failed operations: %s): %w", r, strings.Join(f.Log, "; "), err)
		}
		o.Class(n > 0, "failures")
		o.Class(n > 0 && err == nil, "the process outlived the failures")
		o.Class(n > 0 && err != nil && opened, "failures ended the process")
		o.Class(n > 0 && err != nil && !opened, "failures while opening")
		held := false
		for _, l := range log {
			upper.Add(l.s)
			if l.end.IsZero() {
				continue
			}
			before := n == 0 || !l.end.After(f.First.Add(-h.Settle))
			after := err == nil && !l.end.After(end.Add(-h.Settle)) && (n == 0 || !f.Last.After(end.Add(-h.Settle)))
			if n == 0 {
				before = after
			}
			if before || after {
				lower.Add(l.s)
				held = true
			}
		}
		o.Nontrivial(n > 0 && (held || len(lower.Saves) > 0))
		mu.Unlock()
		what := fmt.Sprintf("round %d, after failed operations (%s)", r, strings.Join(f.Log, "; "))
		tree = h.Tree(dir)
		os.RemoveAll(dir)
		o.Evals(1)
		if err := reopen(t, tree, lower, upper, round.Cache); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	return nil
}

// reopen opens the folder twice, now that all operations work.
func reopen(t *testing.T, tree map[string]string, lower, upper *h.Model, cache int) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	h.Plant(dir, tree)
	for i := 0; i < 2; i++ {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, cache)
			if err != nil {
				return fmt.Errorf("opening: %w", err)
			}
			if err := h.Between(lower, upper, s); err != nil {
				return err
			}
			var qs []h.Query
			for _, f := range h.SortedKeys(upper.Size) {
				qs = append(qs, h.Query{Field: f, Boost: 1, Terms: h.SortedKeys(upper.Post[f])})
			}
			if err := h.SearchBetween(search.NewStandard(index.NewIndex(s)).Search(h.ToQueries(qs)), qs, lower, upper); err != nil {
				return fmt.Errorf("search: %w", err)
			}
			if i == 0 {
				h.Sleep(16 * time.Second)
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("opening %d once operations work again: %w", i+1, err)
		}
	}
	return nil
}

func drawFault(t *rapid.T) h.Fault {
	f := h.Fault{
		Op:    rapid.SampledFrom([]string{"", "write", "write", "open", "rename", "remove", "mkdir", "openread", "read", "opendir", "stat"}).Draw(t, "op"),
		Path:  rapid.SampledFrom([]string{"", "", "temp", "/docs/", "index", "nfterm", "metrics"}).Draw(t, "path"),
		Count: rapid.SampledFrom([]int{1, 1, 2, 5, 1000000}).Draw(t, "count"),
		Errno: rapid.SampledFrom(h.Errnos).Draw(t, "errno"),
	}
	f.Skip = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 60)).Draw(t, "skip")
	if f.Op == "write" || f.Op == "" {
		f.Part = rapid.SampledFrom([]int{0, 1, 50, 99, 100}).Draw(t, "part")
	}
	return f
}

func gen(t *rapid.T) Case {
	var c Case
	hist := h.DrawHist(t, h.Opts{MaxOps: 30, Docs: 6, Fields: 3, Sleep: true, NoReads: true, Bulk: 6})
	n := rapid.IntRange(1, 3).Draw(t, "rounds")
	ops := hist.Ops
	for i := 0; i < n; i++ {
		k := len(ops)
		if i < n-1 {
			k = rapid.IntRange(0, len(ops)).Draw(t, "cut")
		}
		r := Round{Hist: h.Hist{Cache: rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "cache"), Ops: append([]h.Op{}, ops[:k]...)},
			Open: rapid.Bool().Draw(t, "open")}
		ops = ops[k:]
		for j := rapid.IntRange(0, 2).Draw(t, "nfaults"); j >= 0; j-- {
			r.Faults = append(r.Faults, drawFault(t))
		}
		if len(r.Ops) > 1 && rapid.IntRange(0, 3).Draw(t, "pause") > 0 {
			at := rapid.IntRange(1, len(r.Ops)-1).Draw(t, "pauseat")
			pause := h.Op{K: "sleep", Ms: rapid.SampledFrom([]int{15500, 20000, 20500, 26500, 33000}).Draw(t, "pausems")}
			r.Ops = append(r.Ops[:at:at], append([]h.Op{pause}, r.Ops[at:]...)...)
		}
		if rapid.Bool().Draw(t, "idle") {
			r.Ops = append(r.Ops, h.Op{K: "sleep", Ms: rapid.SampledFrom([]int{11000, 13500, 21000, 31000, 62000}).Draw(t, "ms")})
		}
		c.Rounds = append(c.Rounds, r)
	}
	if n > 1 && rapid.IntRange(0, 2).Draw(t, "stopmerging") == 0 {
		// a failure that ends the merging, later saves that wait in fragments, and a failure when those are read
		early := func(ops ...string) h.Fault {
			return h.Fault{Op: rapid.SampledFrom(ops).Draw(t, "early"), Path: rapid.SampledFrom([]string{"temp", "temp", "index", ""}).Draw(t, "earlypath"),
				Skip: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "earlyskip"), Count: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "earlycount"), Errno: rapid.SampledFrom(h.Errnos).Draw(t, "earlyerrno")}
		}
		a, b := &c.Rounds[0], &c.Rounds[1]
		a.Open, a.Faults = false, []h.Fault{early("openread", "read", "remove")}
		a.Ops = append([]h.Op{{K: "sleep", Ms: 16000}}, a.Ops...)
		a.Ops = append(a.Ops, h.Op{K: "sleep", Ms: 62000})
		b.Open, b.Faults = true, []h.Fault{early("openread", "read", "opendir", "opendir", "stat", "remove", "rename", "write")}
	}
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "faults", Quick: 6000, Thorough: 120000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return run(t, c, o) }})
}
