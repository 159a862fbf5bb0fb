package c08

import (
	"fmt"
	"math"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/similarity"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Term struct {
	T    string
	TF   int // 0: not in the field
	DF   int
	More int // for the law in term frequency
}

type Case struct {
	K1, B, Boost, Factor float64
	N                    int
	Avg                  float64
	Len, Longer          int
	Terms                []Term
	Query                []string
	Split                int
	Perm                 []int
}

func gen(t *rapid.T) Case {
	n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 1000), rapid.IntRange(1, 1<<30)).Draw(t, "n")
	boost := rapid.OneOf(rapid.Just(1.0), rapid.Just(0.0), rapid.Float64Range(0.001, 1000))
	c := Case{K1: 1.2, B: 0.75, N: n, Boost: boost.Draw(t, "boost"), Factor: rapid.Float64Range(0.01, 50).Draw(t, "factor")}
	if rapid.IntRange(0, 2).Draw(t, "params") == 0 {
		c.K1, c.B = rapid.Float64Range(0.1, 3).Draw(t, "k1"), rapid.Float64Range(0, 0.95).Draw(t, "b")
	}
	sum := 0
	for i := 0; i < rapid.IntRange(1, 6).Draw(t, "terms"); i++ {
		x := Term{T: string(rune('a' + i)), DF: rapid.OneOf(rapid.IntRange(0, min(n, 6)), rapid.IntRange(0, n), rapid.Just(n)).Draw(t, "df"), More: rapid.IntRange(1, 50).Draw(t, "more")}
		if rapid.IntRange(0, 3).Draw(t, "in") > 0 {
			x.TF = h.Freq().Draw(t, "tf")
			x.DF = max(x.DF, 1)
		}
		sum += x.TF
		c.Terms = append(c.Terms, x)
	}
	c.Len = sum + rapid.IntRange(0, 20).Draw(t, "other")
	c.Longer = rapid.IntRange(1, 1000).Draw(t, "longer")
	c.Avg = rapid.OneOf(rapid.Float64Range(0.01, 10), rapid.Float64Range(1, 1e6), rapid.Just(float64(max(c.Len, 1)))).Draw(t, "avg")
	pool := []string{"zz-unknown"}
	for _, x := range c.Terms {
		pool = append(pool, x.T)
	}
	c.Query = rapid.SliceOfN(rapid.SampledFrom(pool), 0, 9).Draw(t, "query")
	c.Split = rapid.IntRange(0, len(c.Query)).Draw(t, "split")
	idx := make([]int, len(c.Query))
	for i := range idx {
		idx[i] = i
	}
	c.Perm = rapid.Permutation(idx).Draw(t, "perm")
	return c
}

func check(c Case, o *h.Obs) error {
	df, tf := map[string]int{}, map[string]int{}
	for _, x := range c.Terms {
		df[x.T] = x.DF
		if x.TF > 0 {
			tf[x.T] = x.TF
		}
	}
	mod := func(m map[string]int, k string, v int) map[string]int {
		out := map[string]int{}
		for a, b := range m {
			out[a] = b
		}
		out[k] = v
		return out
	}
	type args struct {
		q      []string
		boost  float64
		df, tf map[string]int
		n, len int
	}
	base := args{c.Query, c.Boost, df, tf, c.N, c.Len}
	score := func(a args) float64 {
		return similarity.BM25(append([]string(nil), a.q...), c.K1, c.B, a.boost, c.Avg, float64(a.n), a.df, model.Field{Name: "f", Length: a.len, TF: a.tf})
	}
	got := score(base)
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return fmt.Errorf("score is %v", got)
	}
	boost := c.Boost
	if boost == 0 {
		boost = 1
	}
	want, occurs := 0.0, false
	for _, q := range c.Query {
		f := float64(tf[q])
		occurs = occurs || f > 0
		idf := math.Log(1 + (float64(c.N)-float64(df[q])+0.5)/(float64(df[q])+0.5))
		if g := metric.IdfBM25(float64(c.N), float64(df[q])); !h.Close(g, idf) {
			return fmt.Errorf("idf(%d, %d) = %v, want %v", c.N, df[q], g, idf)
		}
		want += boost * idf * f * (c.K1 + 1) / (f + c.K1*(1-c.B+c.B*float64(c.Len)/c.Avg))
	}
	distinct := map[string]bool{}
	for _, q := range c.Query {
		distinct[q] = true
	}
	o.Nontrivial(occurs && len(distinct) > 1)
	o.Class(!occurs, "no query term occurs")
	o.Class(len(distinct) < len(c.Query), "repeated query term")
	o.Class(c.Boost == 0, "boost 0")
	if !h.Close(got, want) {
		return fmt.Errorf("score %v, formula gives %v", got, want)
	}
	if got < 0 || (got == 0) == occurs {
		return fmt.Errorf("score %v, a query term occurs: %v", got, occurs)
	}
	eps := 1e-12 * (1 + got)
	for _, x := range c.Terms {
		a := base
		a.tf = mod(tf, x.T, x.TF+x.More)
		if g := score(a); g < got-eps {
			return fmt.Errorf("score falls from %v to %v when the frequency of %q grows by %d", got, g, x.T, x.More)
		}
		if distinct[x.T] {
			if g := score(a); g <= got && (x.TF < 100) && float64(c.Len)/c.Avg < 1e6 && x.DF < c.N/2 {
				return fmt.Errorf("score stays at %v when the frequency of %q grows from %d by %d", got, x.T, x.TF, x.More)
			}
		}
		if x.DF < c.N {
			a = base
			a.df = mod(df, x.T, x.DF+1)
			if g := score(a); g > got+eps {
				return fmt.Errorf("score grows from %v to %v when one more document holds %q", got, g, x.T)
			}
		}
	}
	a := base
	a.len += c.Longer
	if g := score(a); g > got+eps {
		return fmt.Errorf("score grows from %v to %v when the field is %d longer", got, g, c.Longer)
	}
	a = base
	a.boost = boost * c.Factor
	if g := score(a); !h.Close(g, got*c.Factor) {
		return fmt.Errorf("boost times %v gives %v, want %v", c.Factor, g, got*c.Factor)
	}
	a.boost = 0
	b := base
	b.boost = 1
	if score(a) != score(b) {
		return fmt.Errorf("boost 0 gives %v, boost 1 gives %v", score(a), score(b))
	}
	a, b = base, base
	a.q, b.q = c.Query[:c.Split], c.Query[c.Split:]
	if g := score(a) + score(b); !h.Close(g, got) {
		return fmt.Errorf("the parts of the query add up to %v, the whole gives %v", g, got)
	}
	a = base
	a.q = make([]string, len(c.Query))
	for i, p := range c.Perm {
		a.q[i] = c.Query[p]
	}
	if g := score(a); !h.Close(g, got) {
		return fmt.Errorf("query %v scores %v, in order %v it scores %v", c.Query, got, a.q, g)
	}
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "laws", Quick: 60000, Thorough: 2000000, Gen: gen, Check: check})
}
