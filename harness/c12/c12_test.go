package c12

import (
	"fmt"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Op struct {
	Put bool
	K   int
	V   int
}

type Seq struct {
	Cap  int
	Fill int // keys 0, 1 .. are put first
	Ops  []Op
}

type Conc struct {
	Cap     int
	Fill    int
	Threads [][]Op
}

func key(k int) string { return fmt.Sprintf("k%d", k) }

func ops(t *rapid.T, keys, lo, hi int) []Op {
	op := rapid.Custom(func(t *rapid.T) Op {
		return Op{rapid.Bool().Draw(t, "put"), rapid.IntRange(0, keys-1).Draw(t, "k"), rapid.IntRange(0, 99).Draw(t, "v")}
	})
	return rapid.SliceOfN(op, lo, hi).Draw(t, "ops")
}

// capacity draws a capacity, mostly small, and a number of entries to start with.
func capacity(t *rapid.T) (int, int) {
	if rapid.IntRange(0, 9).Draw(t, "large") > 0 {
		return rapid.IntRange(1, 6).Draw(t, "cap"), 0
	}
	c := h.Size(1100).Draw(t, "cap")
	return c, c + rapid.IntRange(-2, 30).Draw(t, "fill")
}

func sequential(c Seq, o *h.Obs) error {
	l := cache.NewLRUCache[string](c.Cap)
	var order []int // most recently used first
	vals := map[int]string{}
	use := func(k int) {
		for i, x := range order {
			if x == k {
				order = append(order[:i:i], order[i+1:]...)
				break
			}
		}
		order = append([]int{k}, order...)
	}
	type seen struct {
		p *string
		v string
	}
	var handed []seen
	evicted, hitOrder := 0, false
	keys := map[int]bool{}
	ops := make([]Op, 0, c.Fill+len(c.Ops))
	for i := 0; i < c.Fill; i++ {
		ops = append(ops, Op{true, i, 0})
	}
	for n, op := range append(ops, c.Ops...) {
		keys[op.K] = true
		if op.Put {
			v := fmt.Sprintf("%d/%d", op.V, n)
			l.Put(key(op.K), v)
			vals[op.K] = v
			use(op.K)
			if len(order) > c.Cap {
				delete(vals, order[c.Cap])
				order = order[:c.Cap]
				evicted++
			}
			continue
		}
		got, ok := l.Get(key(op.K))
		want, has := vals[op.K]
		if ok != has || (ok && *got != want) {
			return fmt.Errorf("op %d: get %d: present %v, want %v %q", n, op.K, ok, has, want)
		}
		if has {
			hitOrder = hitOrder || order[0] != op.K
			use(op.K)
			handed = append(handed, seen{got, want})
		}
	}
	// the rest, oldest first: a hit reorders but evicts nothing
	held := 0
	for k := range keys {
		if _, ok := l.Get(key(k)); ok {
			held++
		}
	}
	if held != len(order) {
		return fmt.Errorf("%d entries are held, want %d", held, len(order))
	}
	for i := len(order) - 1; i >= 0; i-- {
		if got, ok := l.Get(key(order[i])); !ok || *got != vals[order[i]] {
			return fmt.Errorf("at the end key %d is not held with its value", order[i])
		}
	}
	for _, s := range handed {
		if *s.p != s.v {
			return fmt.Errorf("a value handed out as %q has become %q", s.v, *s.p)
		}
	}
	o.Nontrivial(evicted > 0)
	o.Class(evicted > 0 && hitOrder, "eviction after a reordering get")
	o.Class(evicted > 0 && c.Cap > 6, "more than six entries")
	o.Class(evicted > 0 && c.Cap > 64, "more than 64 entries")
	return nil
}

func concurrent(c Conc, o *h.Obs) error {
	l := cache.NewLRUCache[[2]int](c.Cap)
	var wg sync.WaitGroup
	errs := make(chan error, len(c.Threads)+1)
	keys := map[int]bool{}
	for i := 0; i < c.Fill; i++ {
		l.Put(key(i), [2]int{i, 0})
		keys[i] = true
	}
	for g, ops := range c.Threads {
		for _, op := range ops {
			if op.Put {
				keys[op.K] = true
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("goroutine %d: panic: %v", g, r)
				}
			}()
			for round := 0; round < 20; round++ {
				for n, op := range ops {
					if op.Put {
						l.Put(key(op.K), [2]int{op.K, n})
					} else if v, ok := l.Get(key(op.K)); ok && v[0] != op.K {
						errs <- fmt.Errorf("goroutine %d: get %d returned the value of %d", g, op.K, v[0])
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	held := 0
	for k := range keys {
		if v, ok := l.Get(key(k)); ok {
			held++
			if v[0] != k {
				return fmt.Errorf("key %d holds the value of %d", k, v[0])
			}
		}
	}
	if held != min(c.Cap, len(keys)) {
		return fmt.Errorf("%d entries are held after concurrent use, want %d", held, min(c.Cap, len(keys)))
	}
	// it still works as before
	return sequentialOn(l, c.Cap)
}

func sequentialOn(l *cache.LRUCache[[2]int], capacity int) error {
	for i := 0; i < 2*capacity; i++ {
		l.Put(fmt.Sprintf("after%d", i), [2]int{i, 0})
	}
	for i := 0; i < 2*capacity; i++ {
		if _, ok := l.Get(fmt.Sprintf("after%d", i)); ok != (i >= capacity) {
			return fmt.Errorf("after concurrent use, entry %d of %d fresh ones is held: %v (capacity %d)", i, 2*capacity, ok, capacity)
		}
	}
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Seq]{Name: "sequence", Quick: 20000, Thorough: 500000,
		Gen: func(t *rapid.T) Seq {
			c, fill := capacity(t)
			if c < 64 && rapid.IntRange(0, 2).Draw(t, "medium") == 0 {
				c = rapid.IntRange(7, 40).Draw(t, "cap")
				return Seq{c, rapid.IntRange(0, c+2).Draw(t, "fill"), ops(t, c+rapid.IntRange(1, c).Draw(t, "more"), 20, 160)}
			}
			return Seq{c, fill, ops(t, c+3, 1, 50)}
		}, Check: sequential})
	h.Run(t, h.Sub[Conc]{Name: "concurrent", Quick: 1600, Thorough: 30000,
		Gen: func(t *rapid.T) Conc {
			var c Conc
			c.Cap, c.Fill = capacity(t)
			for i := 0; i < rapid.IntRange(2, 6).Draw(t, "threads"); i++ {
				c.Threads = append(c.Threads, ops(t, c.Cap+2, 1, 12))
			}
			return c
		},
		Check: func(c Conc, o *h.Obs) error {
			puts := 0
			for _, th := range c.Threads {
				for _, op := range th {
					if op.Put {
						puts++
						break
					}
				}
			}
			o.Nontrivial(puts >= 2)
			return concurrent(c, o)
		}})
}
