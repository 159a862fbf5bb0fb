package c04

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Round is one life of the process: it opens what the crash before left, does its operations and crashes.
// Pick chooses the crash state that the next round opens.
type Round struct {
	h.Hist
	Pick int
}

type Case struct{ Rounds []Round }

type saved struct {
	s          h.Save
	start, end time.Time
}

// state is a directory as a crash leaves it, with what a store on it must and may answer.
type state struct {
	tree         map[string]string
	lower, upper *h.Model
	where        string
}

const keep = 48 // crash states tried per round

func run(t *testing.T, c Case, o *h.Obs) error {
	cur := state{tree: map[string]string{}, lower: h.NewModel(), upper: h.NewModel(), where: "start"}
	for r, round := range c.Rounds {
		dir := h.Scratch()
		h.Plant(dir, cur.tree)
		var states []state
		var log []*saved
		stride, seen := 1, 0
		var mu sync.Mutex
		add := func(tree map[string]string, now time.Time, where string) {
			st := state{tree: tree, lower: cur.lower.Clone(), upper: cur.upper.Clone(), where: where}
			for _, s := range log {
				st.upper.Add(s.s)
				if !s.end.IsZero() && !s.end.After(now.Add(-h.Settle)) {
					st.lower.Add(s.s)
				}
			}
			states = append(states, st)
		}
		stop := h.Watch(func(op h.FileOp) error {
			mu.Lock()
			defer mu.Unlock()
			seen++
			if (seen+round.Pick)%stride != 0 {
				return nil
			}
			where := fmt.Sprintf("round %d, before file operation %d (%s)", r, seen, strings.ReplaceAll(op.String(), dir, "ROOT"))
			tree := h.Tree(dir)
			add(tree, time.Now(), where)
			if op.Op == "write" && len(op.Data) > 0 && h.Below(dir, op.Path) {
				rel := strings.TrimPrefix(strings.TrimPrefix(op.Path, dir), "/")
				torn := make(map[string]string, len(tree))
				for k, v := range tree {
					torn[k] = v
				}
				n := []int{1, len(op.Data) / 2, len(op.Data) - 1, len(op.Data)}[seen%4]
				torn[rel] = tree[rel] + string(op.Data[:n])
				add(torn, time.Now(), where+fmt.Sprintf(", %d bytes of it done", n))
			}
			if len(states) > keep {
				stride *= 2
				half := states[:0]
				for i, s := range states {
					if (i+round.Pick)%2 == 0 {
						half = append(half, s)
					}
				}
				states = half
			}
			return nil
		})
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, round.Cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if err := h.Between(cur.lower, cur.upper, s); err != nil {
				return fmt.Errorf("after a crash at %s: %w", cur.where, err)
			}
			for i, op := range round.Ops {
				if op.K == "sleep" {
					h.Sleep(op.Dur())
					continue
				}
				for _, sv := range op.Saves() {
					rec := &saved{s: sv, start: time.Now()}
					mu.Lock()
					log = append(log, rec)
					mu.Unlock()
					s.SaveOrUpdate(sv.Doc, sv.F())
					mu.Lock()
					rec.end = time.Now()
					mu.Unlock()
					if op.Bulk != nil && op.Bulk.Every > 0 {
						h.Sleep(time.Duration(op.Bulk.Every) * time.Millisecond)
					}
				}
				if i%3 == 0 {
					mu.Lock()
					up := cur.upper.Clone()
					lo := cur.lower.Clone()
					for _, l := range log {
						up.Add(l.s)
						lo.Add(l.s)
					}
					mu.Unlock()
					if err := h.Between(lo, up, s); err != nil {
						return fmt.Errorf("round %d, live after op %d: %w", r, i, err)
					}
				}
			}
			h.Sleep(0)
			mu.Lock()
			add(h.Tree(dir), time.Now(), fmt.Sprintf("round %d, at its end", r))
			mu.Unlock()
			return nil
		})
		stop()
		os.RemoveAll(dir)
		if err != nil {
			return err
		}
		o.Class(seen > keep, "more file operations than tried crash points")
		for _, st := range states {
			o.Evals(1)
			o.Class(strings.Contains(st.where, "bytes of it done"), "torn write")
			o.Class(strings.Contains(st.where, "temp/") && strings.Contains(st.where, "remove"), "crash while a merge removes fragments")
			o.Nontrivial(len(st.lower.Saves) > 0 && len(st.upper.Saves) > len(st.lower.Saves))
			if err := recover_(t, st, round.Cache); err != nil {
				return fmt.Errorf("crash at %s: %w", st.where, err)
			}
		}
		o.Class(r > 0, "second crash after a recovery")
		cur = states[round.Pick%len(states)]
	}
	return nil
}

// recover_ opens a crash state, twice.
func recover_(t *testing.T, st state, cache int) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	h.Plant(dir, st.tree)
	for i := 0; i < 2; i++ {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, cache)
			if err != nil {
				return fmt.Errorf("opening: %w", err)
			}
			if err := h.Between(st.lower, st.upper, s); err != nil {
				return err
			}
			if err := searches(s, st); err != nil {
				return err
			}
			if i == 0 {
				h.Sleep(16 * time.Second) // a background merge
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("opening %d after the crash: %w", i+1, err)
		}
	}
	return nil
}

// searches searches every field for all its terms.
func searches(s storage.Storage, st state) error {
	var qs []h.Query
	for _, f := range h.SortedKeys(st.upper.Size) {
		qs = append(qs, h.Query{Field: f, Boost: 1, Terms: h.SortedKeys(st.upper.Post[f])})
	}
	got := search.NewStandard(index.NewIndex(s)).Search(h.ToQueries(qs))
	if err := h.SearchBetween(got, qs, st.lower, st.upper); err != nil {
		return fmt.Errorf("search: %w", err)
	}
	return nil
}

func gen(t *rapid.T) Case {
	var c Case
	hist := h.DrawHist(t, h.Opts{MaxOps: 24, Docs: 6, Fields: 3, Sleep: true, NoReads: true, Bulk: 6, Drip: 16})
	n := rapid.IntRange(1, 3).Draw(t, "rounds")
	ops := hist.Ops
	for i := 0; i < n; i++ {
		k := len(ops)
		if i < n-1 {
			k = rapid.IntRange(0, len(ops)).Draw(t, "cut")
		}
		r := Round{Hist: h.Hist{Cache: rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "cache"), Ops: append([]h.Op{}, ops[:k]...)},
			Pick: rapid.IntRange(0, 47).Draw(t, "pick")}
		ops = ops[k:]
		if len(r.Ops) > 1 && rapid.IntRange(0, 3).Draw(t, "pause") > 0 {
			at := rapid.IntRange(1, len(r.Ops)-1).Draw(t, "pauseat")
			pause := h.Op{K: "sleep", Ms: rapid.SampledFrom([]int{15500, 20000, 20500, 26500, 33000}).Draw(t, "pausems")}
			r.Ops = append(r.Ops[:at:at], append([]h.Op{pause}, r.Ops[at:]...)...)
		}
		if rapid.Bool().Draw(t, "idle") {
			r.Ops = append(r.Ops, h.Op{K: "sleep", Ms: rapid.SampledFrom([]int{11000, 13500, 15500, 21000, 31000}).Draw(t, "ms")})
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "crash", Quick: 1300, Thorough: 12000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return run(t, c, o) }})
}
