package c02

import (
	"os"
	"testing"

	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func classify(hist h.Hist, o *h.Obs) {
	docs := map[string]bool{}
	slept := 0
	for _, op := range hist.Ops {
		slept += op.Ms
		if op.Bulk != nil {
			slept += op.Bulk.Every * len(op.Saves())
		}
		for _, s := range op.Saves() {
			docs[s.Doc] = true
		}
	}
	evict := len(docs) > hist.Cache
	o.Nontrivial(evict)
	o.Class(evict, "more documents than cache")
	o.Class(slept >= 13000, "crosses a flush of every kind")
	o.Class(slept >= 15000, "crosses a merge")
	o.Class(slept >= 600000, "ten minutes")
	o.Class(hist.Saves() > 100, "over 100 saves")
	o.Class(hist.Count("bulk") > 0, "bulk")
}

func Test(t *testing.T) {
	check := func(full bool) func(hist h.Hist, o *h.Obs) error {
		return func(hist h.Hist, o *h.Obs) error {
			classify(hist, o)
			dir := h.Scratch()
			defer os.RemoveAll(dir)
			return h.DiskSessions(t, dir, hist, full)
		}
	}
	h.Run(t, h.Sub[h.Hist]{Name: "history", Quick: 2400, Thorough: 40000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 25, Docs: 8, Fields: 3, Sleep: true, Search: true})
		},
		Check: check(false)})
	h.Run(t, h.Sub[h.Hist]{Name: "everystep", Quick: 1200, Thorough: 20000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 20, Docs: 6, Fields: 3, Sleep: true, NoReads: true})
		},
		Check: check(true)})
	h.Run(t, h.Sub[h.Hist]{Name: "large", Quick: 120, Thorough: 2000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 6, Fields: 3, Sleep: true, Bulk: 1100, MaxCache: 200})
		},
		Check: check(false)})
	// a process that lives long: many rounds of every kind of background work
	h.Run(t, h.Sub[h.Hist]{Name: "long", Quick: 96, Thorough: 2000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 6, Fields: 3, Sleep: true, Search: true, Drip: 300, MaxCache: 50})
		},
		Check: check(false)})
}
