package c30

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// odd names are those for which the format has rules.
func odd() *rapid.Generator[string] {
	return rapid.OneOf(h.Name(), h.Name(), rapid.SampledFrom([]string{"", ".", "..", "docs", "temp", "index", "metrics", "nfterm", "name", "%", "%%", "%2F", "a/b", "/", "a\x00b", "100%", "docs/metrics/a", "...", " ", "A", "a"}),
		rapid.Map(rapid.IntRange(240, 300), func(n int) string { return strings.Repeat("n", n) }))
}

// Case is a history whose first Written operations an independent writer puts into the folder.
type Case struct {
	h.Hist
	Written int
	Format  h.Format
}

func gen(o h.Opts) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Hist: h.DrawHist(t, o)}
		c.Written = rapid.OneOf(rapid.IntRange(0, len(c.Ops)), rapid.IntRange(len(c.Ops)/4, len(c.Ops)*3/4), rapid.IntRange(len(c.Ops)/4, len(c.Ops)*3/4)).Draw(t, "written")
		c.Format = h.Format{
			Seed: rapid.Uint64().Draw(t, "seed"), Level: rapid.IntRange(-2, 9).Draw(t, "level"),
			Total: rapid.Bool().Draw(t, "total"), Share: rapid.IntRange(0, 3).Draw(t, "share") == 0, Zeros: rapid.IntRange(0, 3).Draw(t, "zeros") == 0,
			Sized: rapid.SliceOfN(rapid.IntRange(0, 5), 1, 4).Draw(t, "fragments"), NoFolders: rapid.Bool().Draw(t, "nofolders"),
		}
		return c
	}
}

func check(t *testing.T, c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	dir = filepath.Join(dir, "store")
	m := h.NewModel()
	for _, op := range c.Ops[:c.Written] {
		for _, s := range op.Saves() {
			m.Add(s)
		}
	}
	before := len(m.Saves)
	if before > 0 {
		c.Format.WriteStore(dir, m)
		if err := h.ReadStore(dir, m); err != nil {
			return fmt.Errorf("error of the check: written and read: %w", err)
		}
	}
	rest := h.Hist{Cache: c.Cache, Ops: append(c.Ops[c.Written:len(c.Ops):len(c.Ops)], h.Op{K: "reopen", Cache: c.Cache}, h.Op{K: "sleep", Ms: 1})}
	err := h.DiskSessionsFrom(t, m, func(int) string { return dir }, rest, false, func(m *h.Model) error { return h.ReadStore(dir, m) })
	o.Nontrivial(before > 1 && rest.Saves() > 1)
	o.Class(before > 0 && !c.Format.Total, "metrics without a total")
	o.Class(before > 0, "opens a folder of others")
	o.Class(rest.Saves() > 0, "leaves a folder to others")
	return err
}

func Test(t *testing.T) {
	run := func(c Case, o *h.Obs) error { return check(t, c, o) }
	h.Run(t, h.Sub[Case]{Name: "format", Quick: 3000, Thorough: 60000, Check: run,
		Gen: gen(h.Opts{MaxOps: 30, Docs: 8, MinDocs: 3, Fields: 4, Names: odd(), Sleep: true, Reopen: true, Search: true, NoReads: true})})
	h.Run(t, h.Sub[Case]{Name: "large", Quick: 80, Thorough: 1500, Check: run,
		Gen: gen(h.Opts{MaxOps: 12, Docs: 5, MinDocs: 2, Fields: 3, Sleep: true, Reopen: true, Bulk: 1100, NoReads: true})})
}
