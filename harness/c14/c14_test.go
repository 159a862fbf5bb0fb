package c14

import (
	"fmt"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Op struct {
	Set bool
	K   h.Str
	V   int
}

type Case struct {
	Fragments int
	Many      int // so many generated keys are set, too
	Ops       []Op
}

type Conc struct {
	Fragments int
	Threads   [][]Op
}

func op(pool []h.Str) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{rapid.IntRange(0, 2).Draw(t, "set") > 0, rapid.SampledFrom(pool).Draw(t, "k"), rapid.IntRange(0, 999).Draw(t, "v")}
	})
}

func pool(t *rapid.T) []h.Str {
	return rapid.SliceOfNDistinct(h.AnyStr(), 2, 14, func(s h.Str) h.Str { return s }).Draw(t, "pool")
}

func frags(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 64), rapid.IntRange(65, 3000)).Draw(t, "fragments")
}

func sequential(c Case, o *h.Obs) error {
	s := cache.NewShardMap[int](c.Fragments)
	ref := map[string]int{}
	many := func(f func(k string, i int, m *cache.LocalMap[int]) error) error {
		for i := 0; i < c.Many; i++ {
			k := fmt.Sprintf("many %d", i)
			m, ok := s.Get(k)
			if !ok || m == nil {
				return fmt.Errorf("no fragment serves %q", k)
			}
			if err := f(k, i, m); err != nil {
				return err
			}
		}
		return nil
	}
	homes := make([]*cache.LocalMap[int], c.Many)
	if err := many(func(k string, i int, m *cache.LocalMap[int]) error {
		m.Set(k, i)
		homes[i] = m
		return nil
	}); err != nil {
		return err
	}
	home := map[string]*cache.LocalMap[int]{}
	for n, op := range c.Ops {
		k := string(op.K)
		m, ok := s.Get(k)
		if !ok || m == nil {
			return fmt.Errorf("op %d: no fragment serves %q", n, k)
		}
		if home[k] == nil {
			home[k] = m
		}
		if home[k] != m {
			return fmt.Errorf("op %d: %q is served by another fragment than before", n, k)
		}
		if op.Set {
			m.Set(k, op.V)
			ref[k] = op.V
		}
		for k := range home {
			m, _ := s.Get(k)
			if m != home[k] {
				return fmt.Errorf("op %d: %q is served by another fragment than before", n, k)
			}
			v, ok := m.Get(k)
			w, has := ref[k]
			if ok != has || (ok && *v != w) {
				return fmt.Errorf("op %d: %q reads present %v, want %v %d", n, k, ok, has, w)
			}
		}
	}
	if err := many(func(k string, i int, m *cache.LocalMap[int]) error {
		if m != homes[i] {
			return fmt.Errorf("%q is served by another fragment than before", k)
		}
		if v, ok := m.Get(k); !ok || *v != i {
			return fmt.Errorf("%q reads present %v, want %d", k, ok, i)
		}
		home[k], ref[k] = m, i
		return nil
	}); err != nil {
		return err
	}
	o.Class(c.Many > 100, "more than 100 keys")
	total := 0
	seen := map[*cache.LocalMap[int]]bool{}
	for k := range home {
		m, _ := s.Get(k)
		if !seen[m] {
			seen[m] = true
			total += len(m.GetData())
			for k, v := range m.GetData() {
				if home[k] != m || *v != ref[k] {
					return fmt.Errorf("a fragment lists %q = %d, want %d", k, *v, ref[k])
				}
			}
		}
	}
	if total != len(ref) {
		return fmt.Errorf("the fragments list %d keys, want %d", total, len(ref))
	}
	o.Nontrivial(len(seen) > 1 && len(ref) > len(seen))
	o.Class(len(seen) > 1, "several fragments in use")
	o.Class(len(home) > len(seen), "keys share a fragment")
	return nil
}

func concurrent(c Conc, o *h.Obs) error {
	s := cache.NewShardMap[[2]int](c.Fragments)
	var wg sync.WaitGroup
	errs := make(chan error, len(c.Threads))
	for g, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// keys shared by all, and keys of this goroutine alone
			own := map[string]int{}
			for round := 0; round < 10; round++ {
				for n, op := range ops {
					k := string(op.K)
					mine := fmt.Sprintf("%d|%s", g, k)
					m, _ := s.Get(k)
					mm, _ := s.Get(mine)
					if op.Set {
						m.Set(k, [2]int{g, n})
						own[mine] = round*100 + n
						mm.Set(mine, [2]int{g, own[mine]})
					} else {
						if v, ok := m.Get(k); ok && (v[0] < 0 || v[0] >= len(c.Threads) || v[1] >= len(c.Threads[v[0]]) || c.Threads[v[0]][v[1]].K != op.K) {
							errs <- fmt.Errorf("goroutine %d reads %v under %q, which nobody set", g, *v, k)
							return
						}
						w, has := own[mine]
						if v, ok := mm.Get(mine); ok != has || (ok && *v != [2]int{g, w}) {
							errs <- fmt.Errorf("goroutine %d does not read its own value under %q", g, mine)
							return
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	// the last set of every key is what remains
	last := map[string]map[[2]int]bool{}
	for g, ops := range c.Threads {
		mine := map[string]int{}
		for n, op := range ops {
			if op.Set {
				mine[string(op.K)] = n
			}
		}
		for k, n := range mine {
			if last[k] == nil {
				last[k] = map[[2]int]bool{}
			}
			last[k][[2]int{g, n}] = true
		}
	}
	for k, vs := range last {
		m, _ := s.Get(k)
		if v, ok := m.Get(k); !ok || !vs[*v] {
			return fmt.Errorf("after concurrent sets %q holds no goroutine's last value", k)
		}
	}
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "sequence", Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) Case {
			many := 0
			if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
				many = h.Size(3000).Draw(t, "keys")
			}
			return Case{frags(t), many, rapid.SliceOfN(op(pool(t)), 1, 40).Draw(t, "ops")}
		}, Check: sequential})
	h.Run(t, h.Sub[Conc]{Name: "concurrent", Quick: 800, Thorough: 20000,
		Gen: func(t *rapid.T) Conc {
			c, p := Conc{Fragments: frags(t)}, pool(t)
			for i := 0; i < rapid.IntRange(2, 6).Draw(t, "threads"); i++ {
				c.Threads = append(c.Threads, rapid.SliceOfN(op(p), 1, 12).Draw(t, "ops"))
			}
			return c
		}, Check: func(c Conc, o *h.Obs) error {
			o.Nontrivial(true)
			return concurrent(c, o)
		}})
}
