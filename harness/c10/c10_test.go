package c10

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Variant is one rewriting of a query that must not matter.
type Variant struct {
	Case   []bool // flips the case of the i-th ASCII letter (cyclic)
	Punct  []string
	Stop   []string // stop words put in
	Places []int    // where
	Drop   bool     // leave out the query's own stop words
}

type Query struct {
	Words    []string // each one token
	Variants []Variant
}

type Case struct {
	Disk  bool
	Texts [][]h.Str // document, field
	Long  []int     // so many further words in the second field of the documents
	Qs    []Query
}

// analyse is the chain as a user of the library writes it.
func analyse(text string) []string {
	r := tokenizer.NewStandard().Tokenize(text)
	r = filter.NewLowercase().Process(r)
	r = filter.NewStopWords(language.GetWords(language.English)).Process(r)
	r = filter.NewStemmer(stemmer.Snowball).Process(r)
	return filter.NewASCII().Process(r)
}

var puncts = []string{" ", "  ", ", ", ". ", "-", "/", "\n", "; ", "!", " (", "\"", "\u00a0", "—", "😀", "_", "@", "\t", "\x00", "…", "\u2019"}

func flip(s string, fs []bool) string {
	if len(fs) == 0 {
		return s
	}
	b := []byte(s)
	n := 0
	for i, c := range b {
		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') {
			if fs[n%len(fs)] {
				b[i] = c ^ 0x20
			}
			n++
		}
	}
	return string(b)
}

func (v Variant) apply(words []string) string {
	var l []string
	for _, w := range words {
		if v.Drop && h.StopEN[h.Lower(w)] {
			continue
		}
		l = append(l, w)
	}
	for i, s := range v.Stop {
		at := v.Places[i%len(v.Places)] % (len(l) + 1)
		l = append(l[:at:at], append([]string{s}, l[at:]...)...)
	}
	return flip(joined(l, v.Punct), v.Case)
}

func joined(l []string, puncts []string) string {
	var b strings.Builder
	for i, w := range l {
		if i > 0 {
			if len(puncts) == 0 {
				b.WriteString(" ")
			} else {
				b.WriteString(puncts[i%len(puncts)])
			}
		}
		b.WriteString(w)
	}
	return b.String()
}

// text is the text of field f of document i.
func (c Case) text(i, f int) string {
	text := string(c.Texts[i][f])
	if i < len(c.Long) && f == 1 && c.Long[i] > 0 {
		var b strings.Builder
		for n := 0; n < c.Long[i]; n++ {
			fmt.Fprintf(&b, "%s %d%s; ", filler[n%len(filler)], n%5000, filler[n%7])
		}
		text = b.String() + text
	}
	return text
}

var filler = []string{"running", "the", "galaxies", "of", "naïve", "kinds", "Conditional", "cats", "x", "dog's", "42"}

func isToken(w string) bool {
	l := h.Tokenize(w)
	return len(l) == 1 && l[0] == w
}

func gen(t *rapid.T) Case {
	c := Case{Disk: rapid.IntRange(0, 3).Draw(t, "disk") == 0}
	n := rapid.IntRange(1, 6).Draw(t, "ndocs")
	var pool []string
	for i := 0; i < n; i++ {
		var d []h.Str
		for f := 0; f < 2; f++ {
			x := h.Text(12).Draw(t, "text")
			d = append(d, h.Str(x))
			pool = append(pool, h.Tokenize(x)...)
		}
		c.Texts = append(c.Texts, d)
	}
	if rapid.IntRange(0, 40).Draw(t, "long") == 0 {
		for i := 0; i < n; i++ {
			c.Long = append(c.Long, rapid.SampledFrom([]int{0, 1, 1}).Draw(t, "some")*h.Size(9000).Draw(t, "words"))
		}
	}
	token := h.Word().Filter(isToken)
	if len(pool) > 0 {
		relative := rapid.Custom(func(t *rapid.T) string {
			if w := h.Relative(rapid.SampledFrom(pool).Draw(t, "of")).Draw(t, "word"); isToken(w) {
				return w
			}
			return "other"
		})
		token = rapid.OneOf(rapid.SampledFrom(pool), rapid.SampledFrom(pool), relative, token)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "nq"); i > 0; i-- {
		q := Query{Words: rapid.SliceOfN(token, 0, 6).Draw(t, "words")}
		for j := rapid.IntRange(1, 3).Draw(t, "nv"); j > 0; j-- {
			v := Variant{Case: rapid.SliceOfN(rapid.Bool(), 0, 5).Draw(t, "case"),
				Punct: rapid.SliceOfN(rapid.SampledFrom(puncts), 0, 4).Draw(t, "punct"), Drop: rapid.Bool().Draw(t, "drop")}
			v.Stop = rapid.SliceOfN(rapid.SampledFrom(h.SortedKeys(h.StopEN)), 0, 3).Draw(t, "stop")
			v.Places = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 3).Draw(t, "places")
			q.Variants = append(q.Variants, v)
		}
		c.Qs = append(c.Qs, q)
	}
	return c
}

var fields = []string{"title", "text"}

func find(s storage.Storage, query string) []model.DocumentScore {
	terms := analyse(query)
	var qs []model.Query
	for _, f := range fields {
		qs = append(qs, model.Query{FieldName: f, Terms: terms, Boost: 1})
	}
	return search.NewStandard(index.NewIndex(s)).Search(qs)
}

func same(a, b []model.DocumentScore) error {
	m := map[string]float64{}
	for _, d := range a {
		m[d.Id] = d.Score
	}
	return h.CheckRanking(b, m)
}

func on(s storage.Storage, c Case, o *h.Obs) error {
	inv := index.NewIndex(s)
	m := h.NewModel()
	for i, d := range c.Texts {
		id := fmt.Sprintf("doc%d", i)
		var fs []model.Field
		for f := range d {
			text := c.text(i, f)
			o.Class(len(text) > 65536, "a text over 64 KiB")
			ws := analyse(text)
			fs = append(fs, model.Field{Name: fields[f], Length: len(ws), TF: metric.TermFrequency(ws)})
			ref := h.Analyse(text)
			m.Add(h.Save{Doc: id, Field: fields[f], TF: h.Counts(ref), Len: len(ref)})
		}
		inv.IndexDocument(id, model.NormalizedDocument{Fields: fs})
	}
	for i, q := range c.Qs {
		text := joined(q.Words, nil)
		ref := h.Analyse(text)
		want := m.Search([]h.Query{{Field: "title", Boost: 1, Terms: ref}, {Field: "text", Boost: 1, Terms: ref}})
		got := find(s, text)
		if err := h.CheckRanking(got, want); err != nil {
			return fmt.Errorf("query %d %q: %w", i, text, err)
		}
		o.Nontrivial(len(want) > 0)
		o.Class(len(want) > 1, "several documents found")
		o.Class(len(want) == 0, "nothing found")
		for _, v := range q.Variants {
			text2 := v.apply(q.Words)
			o.Evals(1)
			o.Class(len(want) > 0 && text2 != text, "rewritten query that finds something")
			if err := same(got, find(s, text2)); err != nil {
				return fmt.Errorf("query %q finds other than %q: %w", text2, text, err)
			}
		}
	}
	// every text finds its own document
	for i, d := range c.Texts {
		for f := range d {
			text, hit := c.text(i, f), false
			for _, r := range find(s, text) {
				hit = hit || r.Id == fmt.Sprintf("doc%d", i)
			}
			if hit != (len(h.Analyse(text)) > 0) {
				return fmt.Errorf("the %s of document %d finds it: %v", fields[f], i, hit)
			}
		}
	}
	return nil
}

func check(t *testing.T, c Case, o *h.Obs) error {
	if !c.Disk {
		return on(storage.NewMemory(), c, o)
	}
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	return h.InSession(t, func() error {
		s, err := storage.NewDiskStore(dir, 3)
		if err != nil {
			return err
		}
		return on(s, c, o)
	})
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "pipeline", Quick: 8000, Thorough: 200000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return check(t, c, o) }})
}
