package c01

import (
	"fmt"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func shared(hist h.Hist) bool {
	seen := map[string]bool{}
	for _, o := range hist.Ops {
		for _, s := range o.Saves() {
			for t := range s.TF {
				k := s.Field + "\x00" + t
				if seen[k] {
					return true
				}
				seen[k] = true
			}
		}
	}
	return false
}

// documents compares whole documents, where the store hands them out.
func documents(s storage.Storage, m *h.Model) error {
	r, ok := s.(interface {
		GetFieldDocumentTest(documentId string) map[string]model.Field
	})
	if !ok {
		return nil
	}
	for _, d := range append(h.SortedKeys(m.Fields), "never saved") {
		got := r.GetFieldDocumentTest(d)
		if len(got) != len(m.Fields[d]) {
			return fmt.Errorf("document %q has %d fields, want %d", d, len(got), len(m.Fields[d]))
		}
		for f, want := range m.Fields[d] {
			if err := h.SameField(got[f], want); err != nil {
				return fmt.Errorf("field %q of document %q: %w", f, d, err)
			}
		}
	}
	return nil
}

func Test(t *testing.T) {
	check := func(full bool) func(hist h.Hist, o *h.Obs) error {
		return func(hist h.Hist, o *h.Obs) error {
			o.Nontrivial(hist.Saves() >= 2 && shared(hist))
			o.Class(hist.Count("bulk") > 0, "bulk")
			o.Class(hist.Saves() > 100, "over 100 saves")
			o.Class(hist.Saves() > 65536, "over 65536 saves")
			s := storage.NewMemory()
			m := h.NewModel()
			for i, op := range hist.Ops {
				if err := h.Apply(s, m, op); err != nil {
					return fmt.Errorf("op %d (%s): %w", i, op.K, err)
				}
				if full {
					if err := m.Compare(s); err != nil {
						return fmt.Errorf("after op %d (%s): %w", i, op.K, err)
					}
				}
			}
			if err := documents(s, m); err != nil {
				return err
			}
			return m.Compare(s)
		}
	}
	h.Run(t, h.Sub[h.Hist]{Name: "history", Quick: 6000, Thorough: 100000,
		Gen:   func(t *rapid.T) h.Hist { return h.DrawHist(t, h.Opts{MaxOps: 30, Docs: 8, Fields: 4, Search: true}) },
		Check: check(true)})
	h.Run(t, h.Sub[h.Hist]{Name: "large", Quick: 300, Thorough: 5000,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 8, Fields: 4, Bulk: 5000})
		},
		Check: check(false)})
	h.Run(t, h.Sub[h.Hist]{Name: "huge", Quick: 16, Thorough: 200,
		Gen: func(t *rapid.T) h.Hist {
			return h.DrawHuge(t, h.Opts{MaxOps: 6, Docs: 8, Fields: 4, Bulk: 3000})
		},
		Check: check(false)})
}
