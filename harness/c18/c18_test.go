package c18

import (
	"fmt"
	"os"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// The listed defect: a store keeps counting the old version of a field (sizes, lengths, counts, posting sets add
// up), while the field itself is the new one. Model.Add records exactly that.
const additive = "resave-adds-up"

// judge compares with the record of the newest versions, or, failing that, with the listed defect.
func judge(s storage.Storage, m *h.Model, o *h.Obs) error {
	latest := m.Latest()
	err := latest.Compare(s)
	if err == nil {
		return nil
	}
	if err2 := m.Compare(s); err2 != nil {
		return fmt.Errorf("not the newest versions (%v) and not the listed finding either: %w", err, err2)
	}
	if len(latest.Saves) == len(m.Saves) {
		return err
	}
	o.Known(additive)
	return nil
}

func check(t *testing.T, c h.Hist, o *h.Obs) error {
	mem := storage.NewMemory()
	m := h.NewModel()
	for i, op := range c.Ops {
		for _, s := range op.Saves() {
			mem.SaveOrUpdate(s.Doc, s.F())
			m.Add(s)
		}
		if err := judge(mem, m, o); err != nil {
			return fmt.Errorf("memory, op %d: %w", i, err)
		}
	}
	o.Nontrivial(len(m.Latest().Saves) < len(m.Saves))
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	m = h.NewModel()
	i, cache := 0, c.Cache
	for done := false; !done; {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, cache)
			if err != nil {
				return err
			}
			if err := judge(s, m, o); err != nil {
				return fmt.Errorf("after opening: %w", err)
			}
			if i >= len(c.Ops) {
				done = true
				return nil
			}
			for ; i < len(c.Ops); i++ {
				op := c.Ops[i]
				if op.K == "reopen" {
					cache = op.Cache
					i++
					break
				}
				for _, sv := range op.Saves() {
					s.SaveOrUpdate(sv.Doc, sv.F())
					m.Add(sv)
				}
				if op.K == "sleep" {
					h.Sleep(op.Dur())
				}
				if err := judge(s, m, o); err != nil {
					return fmt.Errorf("op %d: %w", i, err)
				}
			}
			h.Sleep(h.Settle)
			return judge(s, m, o)
		})
		if err != nil {
			return fmt.Errorf("disk: %w", err)
		}
	}
	return nil
}

func Test(t *testing.T) {
	tf := func(s string) map[string]int { return map[string]int{s: 1} }
	h.Run(t, h.Sub[h.Hist]{Name: "resave", Quick: 1600, Thorough: 40000,
		Fixed: []h.Hist{{Cache: 2, Ops: []h.Op{
			{K: "save", Save: &h.Save{Doc: "d", Field: "f", TF: tf("old"), Len: 1}},
			{K: "save", Save: &h.Save{Doc: "d", Field: "f", TF: tf("new"), Len: 1}}}}},
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 16, Docs: 4, Fields: 2, Sleep: true, Reopen: true, NoReads: true, Resave: true})
		},
		Check: func(c h.Hist, o *h.Obs) error { return check(t, c, o) }})
}
