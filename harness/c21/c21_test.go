package c21

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Op indexes a document with some fields, looks terms up, waits, or restarts the disk store.
type Op struct {
	K      string // index, look, sleep, reopen
	Doc    string
	Fields []h.Save
	Field  string
	Terms  []string
	Ms     int
	Cache  int
	Bulk   *h.Bulk `json:",omitempty"`
}

type Case struct {
	Cache int
	Ops   []Op
}

const unknown = "\u2205unknown"

func look(i index.Index, m *h.Model, op Op, o *h.Obs) (model.SearchResult, error) {
	terms := append([]string{}, op.Terms...)
	r := i.Search(terms, op.Field)
	if !reflect.DeepEqual(terms, append([]string{}, op.Terms...)) {
		return r, fmt.Errorf("the lookup changed the caller's terms")
	}
	want := map[string]bool{}
	asked := map[string]bool{}
	for _, t := range op.Terms {
		asked[t] = true
		for d := range m.Post[op.Field][t] {
			want[d] = true
		}
	}
	for d := range want {
		g, ok := r.FieldDocuments[d]
		if !ok {
			return r, fmt.Errorf("document %q is missing", d)
		}
		if err := h.SameField(g, m.Fields[d][op.Field]); err != nil {
			return r, fmt.Errorf("document %q: %w", d, err)
		}
	}
	for d := range r.FieldDocuments {
		if !want[d] {
			return r, fmt.Errorf("document %q holds none of the terms", d)
		}
	}
	n := m.Size[op.Field]
	if r.TotalDocuments != float64(n) {
		return r, fmt.Errorf("%v documents with the field, want %d", r.TotalDocuments, n)
	}
	if n > 0 {
		if avg := float64(m.Length[op.Field]) / float64(n); !h.Close(r.AvgDocLength, avg) {
			return r, fmt.Errorf("average length %v, want %v", r.AvgDocLength, avg)
		}
	}
	for t := range asked {
		if g := r.NumFieldsWithTerm[t]; g != m.DF[op.Field][t] {
			return r, fmt.Errorf("%d documents with term %q, want %d", g, t, m.DF[op.Field][t])
		}
	}
	for t := range r.NumFieldsWithTerm {
		if !asked[t] {
			return r, fmt.Errorf("term %q is reported but was not asked", t)
		}
	}
	if x, ok := i.(interface {
		GetIndex(fieldName string) map[string]*model.Set
	}); ok {
		whole := x.GetIndex(op.Field)
		if len(whole) != len(m.Post[op.Field]) {
			return r, fmt.Errorf("the whole index of the field has %d terms, want %d", len(whole), len(m.Post[op.Field]))
		}
		for t, docs := range m.Post[op.Field] {
			if whole[t] == nil || whole[t].Size() != len(docs) {
				return r, fmt.Errorf("the whole index of the field is wrong for term %q", t)
			}
			for d := range docs {
				if !whole[t].Contains(d) {
					return r, fmt.Errorf("the whole index of the field lacks %q for term %q", d, t)
				}
			}
		}
	}
	o.Evals(1)
	o.Nontrivial(len(want) >= 2)
	o.Class(n > len(want) && len(want) > 0, "some documents of the field match, some do not")
	o.Class(len(op.Terms) > 16, "more terms than goroutines at once")
	return r, nil
}

func same(a, b model.SearchResult) error {
	if math.IsNaN(a.AvgDocLength) && math.IsNaN(b.AvgDocLength) {
		a.AvgDocLength, b.AvgDocLength = 0, 0
	}
	if a.AvgDocLength != b.AvgDocLength || a.TotalDocuments != b.TotalDocuments || len(a.FieldDocuments) != len(b.FieldDocuments) {
		return fmt.Errorf("memory says %v, disk says %v", a, b)
	}
	for _, t := range append(h.SortedKeys(a.NumFieldsWithTerm), h.SortedKeys(b.NumFieldsWithTerm)...) {
		if a.NumFieldsWithTerm[t] != b.NumFieldsWithTerm[t] {
			return fmt.Errorf("memory and disk differ on term %q", t)
		}
	}
	return nil // the fields themselves were compared with the record
}

func check(t *testing.T, c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	mem := index.NewIndex(storage.NewMemory())
	m := h.NewModel()
	i, cache := 0, c.Cache
	for first := true; first || i < len(c.Ops); first = false {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, cache)
			if err != nil {
				return err
			}
			disk := index.NewIndex(s)
			for ; i < len(c.Ops); i++ {
				op := c.Ops[i]
				switch op.K {
				case "index":
					var d, e model.NormalizedDocument
					for _, f := range op.Fields {
						d.Fields, e.Fields = append(d.Fields, f.F()), append(e.Fields, f.F())
					}
					mem.IndexDocument(op.Doc, d)
					disk.IndexDocument(op.Doc, e)
					for _, f := range op.Fields {
						f.Doc = op.Doc
						m.Add(f)
					}
				case "bulk":
					byDoc, order := map[string][]h.Save{}, []string{}
					for _, f := range (h.Op{K: "bulk", Bulk: op.Bulk}).Saves() {
						if byDoc[f.Doc] == nil {
							order = append(order, f.Doc)
						}
						byDoc[f.Doc] = append(byDoc[f.Doc], f)
						m.Add(f)
					}
					for _, id := range order {
						var d, e model.NormalizedDocument
						for _, f := range byDoc[id] {
							d.Fields, e.Fields = append(d.Fields, f.F()), append(e.Fields, f.F())
						}
						mem.IndexDocument(id, d)
						disk.IndexDocument(id, e)
					}
					o.Class(len(order) > 300, "over 300 documents at once")
					o.Class(op.Bulk.Many > 10, "a document with over ten fields")
				case "look":
					a, err := look(mem, m, op, o)
					if err != nil {
						return fmt.Errorf("op %d: memory: %w", i, err)
					}
					b, err := look(disk, m, op, o)
					if err != nil {
						return fmt.Errorf("op %d: disk: %w", i, err)
					}
					if err := same(a, b); err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
				case "sleep":
					h.Sleep(time.Duration(op.Ms) * time.Millisecond)
				case "reopen":
					h.Sleep(h.Settle)
					cache = op.Cache
					i++
					return nil
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// upTo lists n to 0, the largest most often.
func upTo(n int) []int {
	l := []int{n, n}
	for ; n >= 0; n-- {
		l = append(l, n)
	}
	return l
}

func gen(large bool) func(*rapid.T) Case {
	return func(t *rapid.T) Case { return draw(t, large) }
}

func draw(t *rapid.T, large bool) Case {
	fields := h.Distinct(t, h.Name(), 1, 4, "fields")
	terms := h.Distinct(t, h.Term(), 1, 10, "terms")
	cache := func() int { return rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "cache") }
	c := Case{Cache: cache()}
	docs, bulks := 0, 0
	base := len(fields)
	at := map[string]map[string]bool{}  // the terms of a field
	has := map[string]map[string]bool{} // the fields of a document
	ids := h.Distinct(t, h.Name(), rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "least"), 14, "ids")
	most := 32
	if large {
		most = 8
	}
	for n := rapid.IntRange(2, most).Draw(t, "ops"); n > 0; n-- {
		op := Op{K: rapid.SampledFrom([]string{"index", "index", "index", "index", "more", "look", "look", "look", "sleep", "reopen", "many", "bulk"}).Draw(t, "kind")}
		if large && n == 2 {
			op.K = "bulk"
		}
		document := func(id string, k int) {
			x := Op{K: "index", Doc: id}
			if has[id] == nil {
				has[id] = map[string]bool{}
			}
			for _, f := range rapid.Permutation(fields[:base]).Draw(t, "order")[:k] {
				if has[id][f] {
					continue
				}
				has[id][f] = true
				tf, n := h.DrawTF(t, terms, 5)
				if at[f] == nil {
					at[f] = map[string]bool{}
				}
				for x := range tf {
					at[f][x] = true
				}
				x.Fields = append(x.Fields, h.Save{Field: f, TF: tf, Len: n})
			}
			c.Ops = append(c.Ops, x)
		}
		switch op.K {
		case "index":
			if docs < len(ids) {
				document(ids[docs], rapid.SampledFrom(upTo(base)).Draw(t, "nfields"))
				docs++
			}
			continue
		case "more": // further fields of a document that is there
			if docs > 0 {
				document(ids[rapid.IntRange(0, docs-1).Draw(t, "old")], base)
			}
			continue
		case "bulk":
			if bulks++; !large && (bulks > 1 || rapid.IntRange(0, 4).Draw(t, "skip") > 0) {
				continue
			}
			most := 1200
			if large {
				most = 6000
			}
			op.Bulk = h.DrawBulk(t, fields, bulks, most)
			if op.Bulk.Many > 0 {
				fields = append(fields, op.Bulk.Prefix+"0", fmt.Sprint(op.Bulk.Prefix, op.Bulk.Many-1))
			}
			if op.Bulk.Mod > 0 && rapid.Bool().Draw(t, "lookall") {
				c.Ops = append(c.Ops, op)
				op = Op{K: "look", Field: op.Bulk.Field, Terms: []string{"all"}}
			}
		case "many":
			if rapid.IntRange(0, 3).Draw(t, "skip") > 0 {
				continue
			}
			tf, k := h.DrawTF(t, terms, 5)
			for j, max := 0, rapid.IntRange(5, 60).Draw(t, "many"); j < max; j++ {
				c.Ops = append(c.Ops, Op{K: "index", Doc: fmt.Sprintf("many-%d-%d", n, j), Fields: []h.Save{{Field: fields[j%base], TF: tf, Len: k}}})
			}
			continue
		case "look":
			op.Field = rapid.SampledFrom(append([]string{unknown}, fields...)).Draw(t, "field")
			mx := 6
			if rapid.IntRange(0, 9).Draw(t, "longq") == 0 {
				mx = 100
			}
			term := rapid.SampledFrom(append([]string{unknown, "all", "m0", "w0"}, terms...))
			if known := h.SortedKeys(at[op.Field]); len(known) > 0 {
				term = rapid.OneOf(rapid.SampledFrom(known), rapid.SampledFrom(known), rapid.SampledFrom(h.Near(known)), term)
			}
			op.Terms = rapid.SliceOfN(term, 0, mx).Draw(t, "terms")
			if rapid.IntRange(0, 9).Draw(t, "manyterms") == 0 {
				op.Terms = append(op.Terms, h.WideTerms(h.Size(1100).Draw(t, "distinct"))...)
			}
		case "sleep":
			op.Ms = rapid.SampledFrom([]int{1000, 5000, 7500, 13000, 16000, 31000}).Draw(t, "ms")
		case "reopen":
			op.Cache = cache()
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func Test(t *testing.T) {
	run := func(c Case, o *h.Obs) error { return check(t, c, o) }
	h.Run(t, h.Sub[Case]{Name: "index", Quick: 3000, Thorough: 80000, Gen: gen(false), Check: run})
	h.Run(t, h.Sub[Case]{Name: "large", Quick: 200, Thorough: 4000, Gen: gen(true), Check: run})
}
