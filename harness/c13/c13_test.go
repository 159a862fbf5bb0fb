package c13

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type mapping interface {
	Get(string) (*int, bool)
	Put(string, int)
}

func open(kind string) mapping {
	if kind == "rcu" {
		return cache.NewCacheRCU[int]()
	}
	return cache.NewSyncMap[int]()
}

type Op struct {
	K     string // put, get, sleep, burst
	Key   int
	Ms, N int
	Span  int // burst: number of distinct keys it goes round
}

type Case struct {
	Kind string
	Ops  []Op
}

func key(k int) string {
	return []string{"a", "b", "c", "", "a much longer key", "é"}[k%6] + fmt.Sprint(k/6)
}

const lag = 3 * time.Second

type put struct {
	v  int
	at time.Time
}

func sequential(t *testing.T, c Case, o *h.Obs) error {
	return h.InSession(t, func() error {
		m := open(c.Kind)
		puts := map[int][]put{}
		seen := map[int]int{} // index of the newest put seen, plus one
		type handed struct {
			p *int
			v int
		}
		var values []handed
		n, overwritten, total := 0, false, 0
		get := func(i, k int) error {
			h.Sleep(0)
			p, ok := m.Get(key(k))
			must := -1
			for j, x := range puts[k] {
				if !x.at.After(time.Now().Add(-lag)) {
					must = j
				}
			}
			must = max(must, seen[k]-1)
			if !ok {
				if must >= 0 {
					return fmt.Errorf("op %d: key %d is absent, put %d should be visible", i, k, must)
				}
				return nil
			}
			for j := len(puts[k]) - 1; j >= 0; j-- {
				if puts[k][j].v == *p {
					if j < must {
						return fmt.Errorf("op %d: key %d reads put %d, put %d should be visible", i, k, j, must)
					}
					seen[k] = j + 1
					overwritten = overwritten || j > 0
					values = append(values, handed{p, *p})
					return nil
				}
			}
			return fmt.Errorf("op %d: key %d reads %d, which was never put there", i, k, *p)
		}
		doPut := func(k int) {
			n++
			m.Put(key(k), n)
			puts[k] = append(puts[k], put{n, time.Now()})
		}
		for i, op := range c.Ops {
			switch op.K {
			case "put":
				doPut(op.Key)
			case "burst":
				for j := 0; j < op.N; j++ {
					doPut((op.Key + j*7) % max(1, op.Span))
				}
				o.Class(op.Span > 50 && op.N > 50, "more than 50 keys")
				o.Class(op.Span > 1000 && op.N > 1000, "more than 1000 keys")
				o.Class(op.N > 1000, "burst beyond the channel")
			case "sleep":
				h.Sleep(time.Duration(op.Ms) * time.Millisecond)
				total += op.Ms
			case "get":
				if err := get(i, op.Key); err != nil {
					return err
				}
			}
		}
		h.Sleep(lag)
		top := 18
		for k := range puts {
			top = max(top, k+18)
		}
		for k := 0; k < top; k++ {
			if err := get(len(c.Ops), k); err != nil {
				return err
			}
			if _, ok := m.Get(key(k)); ok != (len(puts[k]) > 0) {
				return fmt.Errorf("at the end key %d is present: %v", k, ok)
			}
		}
		if _, ok := m.Get("never put"); ok {
			return fmt.Errorf("a key never put is present")
		}
		for _, v := range values {
			if *v.p != v.v {
				return fmt.Errorf("a value handed out as %d has become %d", v.v, *v.p)
			}
		}
		o.Nontrivial(overwritten)
		o.Class(overwritten && total > 3000, "a visible value is overwritten")
		return nil
	})
}

type Conc struct {
	Kind    string
	Threads [][]Op
}

// concurrent: every goroutine writes keys of its own and a shared one, and reads all.
func concurrent(t *testing.T, c Conc, o *h.Obs) error {
	o.Nontrivial(len(c.Threads) > 1)
	for _, ops := range c.Threads {
		for _, op := range ops {
			o.Class(op.K == "burst" && op.N > 1000, "burst beyond the channel")
		}
	}
	return h.InSession(t, func() error {
		m := open(c.Kind)
		var wg sync.WaitGroup
		errs := make(chan error, len(c.Threads))
		own := make([]map[int]int, len(c.Threads))
		shared := make([]int, len(c.Threads))
		for g, ops := range c.Threads {
			own[g] = map[int]int{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				// a snapshot that a reader holds must never change under it
				if sm, ok := m.(*cache.SyncMap[int]); ok && g == 0 {
					sm.RLock()
					snap := sm.Data
					sm.RUnlock()
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 40; i++ {
							for range snap {
							}
							time.Sleep(500 * time.Millisecond)
						}
					}()
				}
				last := map[string]int{}
				for i, op := range ops {
					switch op.K {
					case "put":
						v := (g+1)*1000000 + i
						m.Put(fmt.Sprintf("%d|%d", g, op.Key), v)
						own[g][op.Key] = v
						m.Put("shared", v)
						shared[g] = v
					case "burst":
						v := (g+1)*1000000 + i
						for k := op.Key; k < op.Key+op.N; k++ {
							m.Put(fmt.Sprintf("%d|%d", g, k), v)
							own[g][k] = v
						}
					case "get":
						k := fmt.Sprintf("%d|%d", g, op.Key)
						p, ok := m.Get(k)
						w, has := own[g][op.Key]
						if ok && (!has || *p > w || *p < last[k]) {
							errs <- fmt.Errorf("goroutine %d reads %d under its key, its last put is %d, it read %d before", g, *p, w, last[k])
							return
						}
						if !ok && last[k] != 0 {
							errs <- fmt.Errorf("goroutine %d finds its key gone", g)
							return
						}
						if ok {
							last[k] = *p
						}
						for x := range c.Threads {
							if p, ok := m.Get(fmt.Sprintf("%d|%d", x, op.Key)); ok && *p/1000000 != x+1 {
								errs <- fmt.Errorf("goroutine %d reads %d under a key of goroutine %d", g, *p, x)
								return
							}
						}
					case "sleep":
						time.Sleep(time.Duration(op.Ms) * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
		h.Sleep(lag)
		for g := range own {
			for k, v := range own[g] {
				if p, ok := m.Get(fmt.Sprintf("%d|%d", g, k)); !ok || *p != v {
					return fmt.Errorf("at the end goroutine %d's key %d does not read its last put", g, k)
				}
			}
		}
		if p, ok := m.Get("shared"); ok {
			good := false
			for _, v := range shared {
				good = good || *p == v
			}
			if !good {
				return fmt.Errorf("the shared key reads %d, which is no goroutine's last put", *p)
			}
		}
		return nil
	})
}

func kinds() *rapid.Generator[string] { return rapid.SampledFrom([]string{"rcu", "syncmap"}) }

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "sequence", Quick: 6000, Thorough: 150000,
		Gen: func(t *rapid.T) Case {
			c := Case{Kind: kinds().Draw(t, "kind")}
			op := rapid.Custom(func(t *rapid.T) Op {
				switch rapid.IntRange(0, 20).Draw(t, "op") {
				case 0, 1, 2, 3, 4, 5, 6, 7:
					return Op{K: "put", Key: rapid.IntRange(0, 4).Draw(t, "key")}
				case 8, 9, 10, 11, 12:
					return Op{K: "get", Key: rapid.IntRange(0, 5).Draw(t, "key")}
				case 13:
					return Op{K: "burst", Key: rapid.IntRange(0, 5).Draw(t, "key"), N: rapid.SampledFrom([]int{3, 50, 100, 999, 1000, 1001, 2500}).Draw(t, "n"),
						Span: rapid.SampledFrom([]int{1, 7, 18, 18, 60, 300, 1100, 3000}).Draw(t, "span")}
				default:
					return Op{K: "sleep", Ms: rapid.SampledFrom([]int{1, 500, 1000, 1500, 2999, 3000, 3001, 4000, 6000, 9000, 60000}).Draw(t, "ms")}
				}
			})
			c.Ops = rapid.SliceOfN(op, 1, 30).Draw(t, "ops")
			return c
		}, Check: func(c Case, o *h.Obs) error { return sequential(t, c, o) }})
	h.Run(t, h.Sub[Conc]{Name: "concurrent", Quick: 800, Thorough: 20000,
		Gen: func(t *rapid.T) Conc {
			c := Conc{Kind: kinds().Draw(t, "kind")}
			op := rapid.Custom(func(t *rapid.T) Op {
				switch rapid.IntRange(0, 9).Draw(t, "op") {
				case 0, 1, 2, 3:
					return Op{K: "put", Key: rapid.IntRange(0, 3).Draw(t, "key")}
				case 4, 5, 6:
					return Op{K: "get", Key: rapid.IntRange(0, 3).Draw(t, "key")}
				case 7:
					if rapid.IntRange(0, 3).Draw(t, "burst") == 0 {
						return Op{K: "burst", Key: rapid.IntRange(0, 3).Draw(t, "key"), N: h.Size(2100).Draw(t, "n")}
					}
				}
				return Op{K: "sleep", Ms: rapid.SampledFrom([]int{1, 1000, 3000, 3500}).Draw(t, "ms")}
			})
			for i, n := 0, rapid.IntRange(2, 5).Draw(t, "threads"); i < n; i++ {
				c.Threads = append(c.Threads, rapid.SliceOfN(op, 1, 20).Draw(t, "ops"))
			}
			return c
		}, Check: func(c Conc, o *h.Obs) error { return concurrent(t, c, o) }})
}
