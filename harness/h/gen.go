package h

import (
	"fmt"
	"math"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Op is one step of a history.
type Op struct {
	K     string   // save, index, bulk, sleep, reopen, fields, docs, df, search, stats
	Save  *Save    `json:",omitempty"`
	Bulk  *Bulk    `json:",omitempty"`
	Ms    int      `json:",omitempty"` // sleep, in fake milliseconds
	Field string   `json:",omitempty"`
	Docs  []string `json:",omitempty"`
	Terms []string `json:",omitempty"`
	Qs    []Query  `json:",omitempty"`
	Cache int      `json:",omitempty"` // reopen: capacity of the next session
}

// Bulk stands for many saves at once: N documents that share terms, or (Wide > 0) documents with Wide terms, or
// (Many > 0) one document with Many fields.
type Bulk struct {
	Prefix string
	Field  string
	N      int
	Mod    int
	Wide   int
	Many   int
	Empty  int // every Empty-th document has no terms (0: none)
	Count  int // base term frequency
	Every  int `json:",omitempty"` // fake milliseconds that pass after every save
}

// Saves lists the saves of an operation.
func (o Op) Saves() []Save {
	switch o.K {
	case "save":
		return []Save{*o.Save}
	case "bulk":
		b := o.Bulk
		var out []Save
		for i := 0; i < b.Many; i++ {
			s := Save{Doc: b.Prefix, Field: fmt.Sprintf("%s%d", b.Prefix, i), TF: map[string]int{"all": b.Count, fmt.Sprintf("m%d", i%7): 1}, Len: b.Count + 1}
			out = append(out, s)
		}
		for i := 0; i < b.N; i++ {
			s := Save{Doc: fmt.Sprintf("%s%d", b.Prefix, i), Field: b.Field, TF: map[string]int{}}
			if b.Empty > 0 && i%b.Empty == b.Empty-1 {
				out = append(out, s)
				continue
			}
			if b.Wide > 0 {
				for j := 0; j < b.Wide; j++ {
					s.TF[fmt.Sprintf("w%d", j)] = b.Count + j%3
				}
			} else {
				s.TF["all"] = b.Count
				s.TF[fmt.Sprintf("m%d", i%b.Mod)] = 1 + i%3
			}
			for _, v := range s.TF {
				s.Len += v
			}
			out = append(out, s)
		}
		return out
	}
	return nil
}

// Dur is the sleep of an operation.
func (o Op) Dur() time.Duration { return time.Duration(o.Ms) * time.Millisecond }

// Hist is a whole case.
type Hist struct {
	Cache int
	Ops   []Op
}

// Saves counts the saves.
func (h Hist) Saves() (n int) {
	for _, o := range h.Ops {
		n += len(o.Saves())
	}
	return
}

// Count counts the operations of a kind.
func (h Hist) Count(k string) (n int) {
	for _, o := range h.Ops {
		if o.K == k {
			n++
		}
	}
	return
}

// Opts shapes the histories.
type Opts struct {
	MaxOps   int
	Docs     int
	MinDocs  int // at least so many ids in five of six histories
	Fields   int
	Reopen   bool
	Search   bool
	Sleep    bool
	Bulk     int // largest number of documents of one bulk (0: none)
	Drip     int // largest number of saves with time passing after each (0: none)
	Reopens  int // how much more often than usual the store is opened again
	Resave   bool
	Index    bool                     // documents added to the index alone
	Names    *rapid.Generator[string] // document ids and field names
	MaxCache int
	NoReads  bool
}

var simpleName = rapid.StringMatching(`[a-z]{1,3}`)
var mildName = rapid.OneOf(
	simpleName, simpleName, simpleName,
	rapid.StringMatching(`[A-Z][a-z]{0,2}`),
	rapid.StringMatching(`[0-9]{1,6}`),
	rapid.StringMatching(`[a-z]{1,2}[ .\-_@#+=,;:!][a-z0-9]{1,3}`),
	rapid.StringMatching(`[éßñ日本жא😀a-c]{1,4}`),
	rapid.StringMatching(`[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}`),
	rapid.Map(rapid.IntRange(0, 30), func(n int) string { return strings.Repeat("long name ", 24+n%4) + fmt.Sprint(n) }),
)

// Name draws ids and field names that nobody would call unusual, plus some that are merely not ASCII words.
func Name() *rapid.Generator[string] { return mildName }

// Term draws index terms.
func Term() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-e]`), rapid.StringMatching(`[a-e]`), rapid.StringMatching(`[a-h]{1,3}`),
		rapid.StringMatching(`[a-z]{4,12}`),
		rapid.StringMatching(`[0-9]{1,5}`),
		rapid.StringMatching(`[éßñ日本жא😀'a-c]{1,6}`),
		rapid.Just(""),
		rapid.Map(rapid.IntRange(30, 3000), func(n int) string { return fmt.Sprintf("long%0*d", n, 7) }),
	)
}

// Distinct draws n..m distinct values.
func Distinct(t *rapid.T, g *rapid.Generator[string], lo, hi int, label string) []string {
	return rapid.SliceOfNDistinct(g, lo, hi, func(s string) string { return s }).Draw(t, label)
}

// Confusable draws short names over few letters, one of which is often used as a separator.
func Confusable(t *rapid.T) *rapid.Generator[string] {
	sep := rapid.SampledFrom([]string{"", "_", ":", "-", ".", "|", " ", ",", ";", "=", "#", "/", "\x00", "\t", "\n", "%", "+"}).Draw(t, "separator")
	return rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", sep}), 1, 4), func(l []string) string { return strings.Join(l, "") })
}

// Size draws a number of things from 1 to hi: small, anything, or next to a round number at which code may change its ways.
func Size(hi int) *rapid.Generator[int] {
	edges := []int{hi}
	for _, e := range []int{8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000, 131072, 262144, 500000, 524288, 1000000, 1 << 20, 2 << 20, 4 << 20, 5000000} {
		for _, d := range []int{-1, 0, 1, 2} {
			if e+d <= hi {
				edges = append(edges, e+d)
			}
		}
	}
	return rapid.OneOf(rapid.IntRange(1, min(hi, 20)), rapid.IntRange(1, hi), rapid.SampledFrom(edges), rapid.IntRange(max(1, hi*3/4), hi))
}

// Freq draws a term frequency.
func Freq() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 4), rapid.IntRange(1, 4), rapid.IntRange(5, 300), rapid.IntRange(301, 70000))
}

var sleeps = []int{1, 500, 1000, 2000, 3000, 4999, 5000, 6500, 7000, 8000, 10000, 12999, 13000, 13001, 15000, 16000, 20000, 26000, 31000, 60000, 195000, 3600000}

// DrawTF draws a term map over a pool.
func DrawTF(t *rapid.T, pool []string, maxTerms int) (map[string]int, int) {
	n := rapid.IntRange(0, min(maxTerms, len(pool))).Draw(t, "nterms")
	if n == 0 && rapid.IntRange(0, 2).Draw(t, "empty") > 0 {
		n = 1
	}
	terms := rapid.Permutation(pool).Draw(t, "terms")[:n]
	tf := map[string]int{}
	sum := 0
	for _, x := range terms {
		v := Freq().Draw(t, "tf")
		tf[x] = v
		sum += v
	}
	if len(terms) > 0 && rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
		// two such fields together have more than 32 bits hold
		v := rapid.IntRange(1<<30, 1<<31-1).Draw(t, "hugetf")
		tf[terms[0]] = v
		sum = min(sum+v, 1<<31-1)
	}
	if rapid.IntRange(0, 5).Draw(t, "otherlength") == 0 {
		// a field's length is what the caller says, not the sum of its frequencies
		sum = rapid.IntRange(1, 500).Draw(t, "length")
	}
	return tf, sum
}

// DrawHist draws a history.
func DrawHist(t *rapid.T, o Opts) Hist {
	names := o.Names
	if names == nil {
		names = Name()
	}
	term := Term()
	if rapid.IntRange(0, 5).Draw(t, "confusable") == 0 {
		// names that are alike once they are put together, with or without something in between
		names = Confusable(t)
		term = names
	}
	least := 1
	if o.MinDocs > 0 && rapid.IntRange(0, 5).Draw(t, "few") != 3 {
		least = min(o.MinDocs, o.Docs)
	}
	docs := Distinct(t, names, least, max(1, o.Docs), "docs")
	fields := Distinct(t, names, 1, max(1, o.Fields), "fields")
	terms := Distinct(t, term, 1, 12, "termpool")
	cache := func() int {
		mx := o.MaxCache
		if mx == 0 {
			mx = 8
		}
		return rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 2), rapid.IntRange(1, mx), rapid.Just(1000)).Draw(t, "cache")
	}
	hist := Hist{Cache: cache()}
	used := map[[2]string]bool{}
	var usedList [][2]string
	bulks := 0
	longest := math.MaxInt // sleeps become expensive with many fields
	docPool := func() []string {
		l := append([]string{}, docs...)
		return append(l, absent)
	}
	kinds := []string{"save", "save", "save", "save", "save", "save"}
	if !o.NoReads {
		kinds = append(kinds, "fields", "docs", "df", "stats")
	}
	if o.Sleep {
		kinds = append(kinds, "sleep", "sleep")
	}
	if o.Reopen {
		kinds = append(kinds, "reopen", "reopen", "reopen")
	}
	for i := 0; i < o.Reopens; i++ {
		kinds = append(kinds, "reopen")
	}
	if o.Search {
		kinds = append(kinds, "search")
	}
	if o.Drip > 0 {
		kinds = append([]string{"drip", "drip"}, kinds...)
	}
	if o.Bulk > 0 {
		kinds = append([]string{"bulk", "bulk"}, kinds...)
	}
	if o.Resave {
		kinds = append(kinds, "resave", "resave")
	}
	if o.Index {
		kinds = append(kinds, "index", "index", "index", "index")
	}
	nops := rapid.OneOf(rapid.IntRange(max(1, o.MaxOps/2), o.MaxOps), rapid.IntRange(1, o.MaxOps)).Draw(t, "nops")
	for i := 0; i < nops; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		switch k {
		case "save":
			d := rapid.IntRange(0, len(docs)-1).Draw(t, "doc")
			f := rapid.IntRange(0, len(fields)-1).Draw(t, "field")
			// the next unused pair from there on
			for j := 0; j < len(docs)*len(fields); j++ {
				p := [2]string{docs[(d+j/len(fields))%len(docs)], fields[(f+j)%len(fields)]}
				if !used[p] {
					used[p] = true
					usedList = append(usedList, p)
					tf, n := DrawTF(t, terms, 6)
					if o.Index {
						n = max(n, 1) // found by a term that is only in the index, it is scored by its length
					}
					hist.Ops = append(hist.Ops, Op{K: "save", Save: &Save{Doc: p[0], Field: p[1], TF: tf, Len: n}})
					break
				}
			}
		case "index":
			tf, n := DrawTF(t, terms, 6)
			if rapid.IntRange(0, 7).Draw(t, "iwide") == 7 {
				for _, w := range WideTerms(Size(400).Draw(t, "iterms")) {
					tf[w] = 1
				}
			}
			hist.Ops = append(hist.Ops, Op{K: "index", Save: &Save{Doc: rapid.SampledFrom(docs).Draw(t, "idoc"), Field: rapid.SampledFrom(fields).Draw(t, "ifield"), TF: tf, Len: n}})
		case "resave":
			if len(usedList) == 0 {
				continue
			}
			p := rapid.SampledFrom(usedList).Draw(t, "again")
			tf, n := DrawTF(t, terms, 6)
			hist.Ops = append(hist.Ops, Op{K: "save", Save: &Save{Doc: p[0], Field: p[1], TF: tf, Len: n}})
		case "bulk":
			if bulks >= 2 {
				continue
			}
			bulks++
			b := DrawBulk(t, fields, bulks, o.Bulk)
			fields = append(fields, b.Field)
			if b.Many > 0 {
				fields = append(fields, b.Prefix+"0", fmt.Sprint(b.Prefix, b.Many-1))
				if b.Many > 40 {
					longest = 16000
				}
			}
			hist.Ops = append(hist.Ops, Op{K: "bulk", Bulk: b})
		case "drip":
			if bulks >= 3 {
				continue
			}
			bulks++
			b := drawBulk(t, fields, bulks, o.Drip, o.Drip/10)
			b.Every = rapid.SampledFrom([]int{1, 100, 999, 2500, 5000, 6999, 7000, 10000, 13000, 13001, 15000, 16000, 26000}).Draw(t, "every")
			fields = append(fields, b.Field)
			if b.Many > 0 {
				fields = append(fields, b.Prefix+"0", fmt.Sprint(b.Prefix, b.Many-1))
			}
			hist.Ops = append(hist.Ops, Op{K: "bulk", Bulk: b})
		case "sleep":
			hist.Ops = append(hist.Ops, Op{K: "sleep", Ms: min(longest, rapid.SampledFrom(sleeps).Draw(t, "ms"))})
		case "reopen":
			hist.Ops = append(hist.Ops, Op{K: "reopen", Cache: cache()})
		case "fields":
			hist.Ops = append(hist.Ops, Op{K: k, Field: rapid.SampledFrom(fields).Draw(t, "f"),
				Docs: rapid.SliceOfN(rapid.SampledFrom(docPool()), 0, 6).Draw(t, "ds")})
		case "docs", "df":
			hist.Ops = append(hist.Ops, Op{K: k, Field: rapid.SampledFrom(fields).Draw(t, "f"),
				Terms: rapid.SliceOfN(rapid.SampledFrom(append([]string{absent}, terms...)), 0, 5).Draw(t, "ts")})
		case "stats":
			hist.Ops = append(hist.Ops, Op{K: k, Field: rapid.SampledFrom(fields).Draw(t, "f")})
		case "search":
			hist.Ops = append(hist.Ops, Op{K: k, Qs: DrawQueries(t, fields, terms)})
		}
	}
	return hist
}

// DrawBulk draws the n-th bulk of a history, of up to hi documents.
func DrawBulk(t *rapid.T, fields []string, n, hi int) *Bulk {
	return drawBulk(t, fields, n, hi, hi/4)
}

func drawBulk(t *rapid.T, fields []string, n, hi, many int) *Bulk {
	b := &Bulk{Prefix: fmt.Sprintf("bulk%d-", n), Field: rapid.SampledFrom(fields).Draw(t, "bfield"),
		Count: rapid.IntRange(1, 5).Draw(t, "bcount")}
	if rapid.IntRange(0, 3).Draw(t, "own") == 0 {
		b.Field = b.Prefix + "field" // where nothing else is
	}
	switch rapid.IntRange(0, 7).Draw(t, "form") {
	case 0, 1:
		b.N, b.Wide = rapid.IntRange(1, 2).Draw(t, "bn"), Size(hi).Draw(t, "bw")
	case 2:
		b.Many = Size(max(2, many)).Draw(t, "bf")
	default:
		b.N, b.Mod = Size(hi).Draw(t, "bn"), rapid.IntRange(1, 9).Draw(t, "bm")
		b.Empty = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "be")
	}
	return b
}

// DrawHuge draws a history in which one field has more documents than 16 bits count, or one document more terms or
// fields than that.
func DrawHuge(t *rapid.T, o Opts) Hist {
	const lo, hi = 65534, 70000
	hist := DrawHist(t, o)
	b := &Bulk{Prefix: "huge-", Field: "huge", Count: rapid.IntRange(1, 5).Draw(t, "hcount"), Mod: rapid.IntRange(1, 9).Draw(t, "hmod")}
	if o.MinDocs == 0 && rapid.IntRange(0, 3).Draw(t, "hwide") == 0 {
		b.N, b.Wide = 1, rapid.IntRange(lo, hi).Draw(t, "hw")
	} else {
		b.N = rapid.IntRange(lo, hi).Draw(t, "hn")
	}
	ops := []Op{{K: "bulk", Bulk: b}}
	if o.Sleep {
		ops = append(ops, Op{K: "sleep", Ms: rapid.SampledFrom([]int{1, 7000, 13000, 26000}).Draw(t, "hms")})
	}
	at := rapid.IntRange(0, len(hist.Ops)).Draw(t, "hat")
	hist.Ops = append(hist.Ops[:at:at], append(ops, hist.Ops[at:]...)...)
	return hist
}

// WideTerms lists the terms of a wide document, last first.
func WideTerms(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprintf("w%d", n-1-i)
	}
	return l
}

// DrawQueries draws a list of field queries, with unknown and repeated fields and terms.
func DrawQueries(t *rapid.T, fields, terms []string) []Query {
	return DrawQueriesOf(t, fields, terms, nil)
}

// DrawQueriesOf draws field queries; most terms are such that occur in the queried field, as far as known tells.
func DrawQueriesOf(t *rapid.T, fields, terms []string, known map[string][]string) []Query {
	fpool := append([]string{absent}, fields...)
	tpool := append([]string{absent, "all", "m0", "m1", "w0", "w7"}, terms...)
	boost := rapid.OneOf(rapid.Just(1.0), rapid.Just(0.0), rapid.Float64Range(0.01, 20))
	var qs []Query
	n := rapid.IntRange(0, 4).Draw(t, "nq")
	for i := 0; i < n; i++ {
		f := rapid.SampledFrom(fpool).Draw(t, "qf")
		if f == absent {
			f = rapid.SampledFrom(fpool).Draw(t, "qf2")
		}
		mx := 6
		if rapid.IntRange(0, 9).Draw(t, "longq") == 0 {
			mx = 120
		}
		term := rapid.SampledFrom(tpool)
		if k := known[f]; len(k) > 0 {
			term = rapid.OneOf(rapid.SampledFrom(k), rapid.SampledFrom(k), rapid.SampledFrom(k), term, rapid.SampledFrom(append(Near(k), tpool...)))
		}
		q := Query{Field: f, Boost: boost.Draw(t, "boost"), Terms: rapid.SliceOfN(term, 0, mx).Draw(t, "qt")}
		if rapid.IntRange(0, 14).Draw(t, "manyterms") == 0 {
			q.Terms = append(q.Terms, WideTerms(Size(1100).Draw(t, "distinct"))...)
		}
		qs = append(qs, q)
	}
	return qs
}
