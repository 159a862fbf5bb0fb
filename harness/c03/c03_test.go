package c03

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"

	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func classify(hist h.Hist, o *h.Obs) {
	sess := map[string]int{} // field -> last session that saved it
	n, saves, again := 0, 0, false
	for _, op := range hist.Ops {
		if op.K == "reopen" {
			n++
		}
		for _, s := range op.Saves() {
			saves++
			if l, ok := sess[s.Field]; ok && l != n {
				again = true
			}
			sess[s.Field] = n
		}
	}
	o.Nontrivial(n >= 1 && again)
	o.Class(n >= 1, "restart")
	o.Class(n >= 3, "three restarts")
	o.Class(n >= 20, "twenty restarts")
	o.Class(again, "a field grows in several sessions")
	o.Class(saves > 100, "over 100 saves")
}

// Paths is a history whose sessions spell the path of the folder differently, or find it moved or copied.
type Paths struct {
	h.Hist
	Spell []int
}

func paths(t *testing.T, c Paths, o *h.Obs) error {
	base := h.Scratch()
	defer os.RemoveAll(base)
	old, err := os.Getwd()
	if err != nil {
		return err
	}
	if err := os.Chdir(base); err != nil {
		return err
	}
	defer os.Chdir(old)
	at := "store"
	n := 0
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	return h.DiskSessionsAt(t, func(sess int) string {
		n++
		abs := filepath.Join(base, at)
		k := c.Spell[sess%len(c.Spell)]
		o.Class(k > 6 && sess > 0, "moved or copied folder")
		switch k {
		case 0:
			return abs
		case 1:
			return at
		case 2:
			return at + "/"
		case 3:
			return "./" + at + "//"
		case 4:
			return at + "/../" + filepath.Base(at) + "/."
		case 5:
			return abs + "/"
		case 6: // by way of a link
			l := fmt.Sprintf("link%d", n)
			must(os.Symlink(abs, filepath.Join(base, l)))
			if sess > 0 {
				return l
			}
			must(os.MkdirAll(abs, 0o755))
			return l
		}
		if sess == 0 {
			return at
		}
		to := []string{"moved%d", "another place/%d%%", "b/docs/index%d"}[k-7]
		to = fmt.Sprintf(to, n)
		must(os.MkdirAll(filepath.Dir(filepath.Join(base, to)), 0o755))
		if k == 8 {
			h.Plant(filepath.Join(base, to), h.Tree(abs))
		} else {
			must(os.Rename(abs, filepath.Join(base, to)))
		}
		at = to
		return at
	}, c.Hist, false)
}

func Test(t *testing.T) {
	check := func(hist h.Hist, o *h.Obs) error {
		// always end with a restart
		hist.Ops = append(hist.Ops[:len(hist.Ops):len(hist.Ops)], h.Op{K: "reopen", Cache: hist.Cache}, h.Op{K: "sleep", Ms: 1})
		classify(hist, o)
		dir := h.Scratch()
		defer os.RemoveAll(dir)
		return h.DiskSessions(t, dir, hist, false)
	}
	h.Run(t, h.Sub[h.Hist]{Name: "sessions", Quick: 2000, Thorough: 40000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 25, Docs: 7, Fields: 3, Sleep: true, Reopen: true, Search: true})
		},
		Check: check})
	h.Run(t, h.Sub[Paths]{Name: "paths", Quick: 600, Thorough: 12000,
		Gen: func(t *rapid.T) Paths {
			return Paths{Hist: h.DrawHist(t, h.Opts{MaxOps: 16, Docs: 5, Fields: 3, Sleep: true, Reopen: true, Search: true}),
				Spell: rapid.SliceOfN(rapid.IntRange(0, 9), 1, 6).Draw(t, "spell")}
		},
		Check: func(c Paths, o *h.Obs) error {
			c.Ops = append(c.Ops[:len(c.Ops):len(c.Ops)], h.Op{K: "reopen", Cache: c.Cache}, h.Op{K: "sleep", Ms: 1})
			classify(c.Hist, o)
			return paths(t, c, o)
		}})
	h.Run(t, h.Sub[h.Hist]{Name: "large", Quick: 120, Thorough: 2000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 14, Docs: 5, Fields: 3, Sleep: true, Reopen: true, Bulk: 1100, NoReads: true})
		},
		Check: check})
	// many rounds of background work, or many restarts
	h.Run(t, h.Sub[h.Hist]{Name: "long", Quick: 96, Thorough: 2000,
		Gen: func(t *rapid.T) h.Hist {
			if rapid.Bool().Draw(t, "restarts") {
				return h.DrawHist(t, h.Opts{MaxOps: 120, Docs: 7, Fields: 3, Sleep: true, Reopen: true, Reopens: 6, NoReads: true})
			}
			return h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 6, Fields: 3, Sleep: true, Reopen: true, Search: true, Drip: 300})
		},
		Check: check})
	// more of a kind than 16 bits count
	h.Run(t, h.Sub[h.Hist]{Name: "huge", Slow: true, Quick: 4, Thorough: 200,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHuge(t, h.Opts{MaxOps: 6, Docs: 6, Fields: 3, Sleep: true, Reopen: true, MaxCache: 200})
		},
		Check: func(hist h.Hist, o *h.Obs) error {
			defer debug.SetGCPercent(debug.SetGCPercent(400))
			return check(hist, o)
		}})
}
