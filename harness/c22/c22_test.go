package c22

import (
	"fmt"
	"maps"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Op struct {
	Remove bool
	Copy   int // -1, or the set that becomes a copy of Set
	Set    int
	E      h.Str
	Bulk   int `json:",omitempty"` // so many further elements
}

type Case struct{ Ops []Op }

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "sets", Quick: 20000, Thorough: 500000,
		Gen: func(t *rapid.T) Case {
			pool := rapid.SliceOfNDistinct(h.AnyStr(), 1, 7, func(s h.Str) h.Str { return s }).Draw(t, "pool")
			op := rapid.Custom(func(t *rapid.T) Op {
				op := Op{Copy: -1, Set: rapid.IntRange(0, 2).Draw(t, "set"), E: rapid.SampledFrom(pool).Draw(t, "e")}
				switch rapid.IntRange(0, 11).Draw(t, "op") {
				case 0, 1, 2, 3:
					op.Remove = true
				case 4:
					op.Copy = rapid.IntRange(0, 2).Draw(t, "copy")
				}
				return op
			})
			ops := rapid.SliceOfN(op, 1, 40).Draw(t, "ops")
			if rapid.IntRange(0, 150).Draw(t, "large") == 0 {
				ops = ops[:min(len(ops), 12)]
				for i := rapid.IntRange(1, 3).Draw(t, "bulks"); i > 0; i-- {
					ops[rapid.IntRange(0, len(ops)-1).Draw(t, "at")].Bulk = h.Size(70000).Draw(t, "bulk")
				}
			}
			return Case{ops}
		},
		Check: func(c Case, o *h.Obs) error {
			var sets [3]*model.Set
			var ref [3]map[string]bool
			for i := range sets {
				sets[i], ref[i] = model.NewSet(), map[string]bool{}
			}
			removed, pool := false, map[string]bool{"\x00never": true}
			for _, op := range c.Ops {
				pool[string(op.E)] = true
			}
			for n, op := range c.Ops {
				e := string(op.E)
				if op.Copy >= 0 {
					c, ok := any(sets[op.Set]).(interface{ Copy() *model.Set })
					if !ok {
						continue
					}
					sets[op.Copy] = c.Copy()
					ref[op.Copy] = maps.Clone(ref[op.Set])
					o.Class(op.Copy != op.Set && len(ref[op.Set]) > 0, "copied")
				}
				for i := 0; op.Copy < 0 && i < op.Bulk; i++ {
					e := fmt.Sprint(i)
					if op.Remove {
						sets[op.Set].Remove(e)
						delete(ref[op.Set], e)
					} else {
						sets[op.Set].Add(e)
						ref[op.Set][e] = true
					}
				}
				o.Class(op.Bulk > 4096, "more than 4096 elements")
				if op.Copy >= 0 {
				} else if op.Remove {
					removed = removed || ref[op.Set][e]
					sets[op.Set].Remove(e)
					delete(ref[op.Set], e)
				} else {
					sets[op.Set].Add(e)
					ref[op.Set][e] = true
				}
				for i, s := range sets {
					if s.Size() != len(ref[i]) {
						return fmt.Errorf("after op %d set %d has size %d, want %d", n, i, s.Size(), len(ref[i]))
					}
					for e := range pool {
						if s.Contains(e) != ref[i][e] {
							return fmt.Errorf("after op %d set %d contains %q: %v, want %v", n, i, e, s.Contains(e), ref[i][e])
						}
					}
					listed := 0
					for e := range s.GetData() {
						listed++
						if !ref[i][e] {
							return fmt.Errorf("after op %d set %d lists %q, which is not in it", n, i, e)
						}
					}
					if listed != len(ref[i]) {
						return fmt.Errorf("after op %d set %d lists %d of %d elements", n, i, listed, len(ref[i]))
					}
				}
			}
			o.Nontrivial(removed)
			return nil
		}})
}
