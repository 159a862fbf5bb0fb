package h

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Save is one saved field of one document.
type Save struct {
	Doc   string
	Field string
	TF    map[string]int
	Len   int
	Only  string `json:",omitempty"` // "memory" or "disk": added to the index of such a store only (UpdateIndex)
}

// F is the field value that the save stores.
func (s Save) F() model.Field {
	tf := make(map[string]int, len(s.TF))
	for k, v := range s.TF {
		tf[k] = v
	}
	return model.Field{Name: s.Field, Length: s.Len, TF: tf}
}

// Model is the plain record of saves that a store must agree with. Every (document, field) pair is saved at most
// once; Additive models what the code does with repeated pairs (see C18).
type Model struct {
	Saves  []Save
	Post   map[string]map[string]map[string]bool // field, term, documents
	Fields map[string]map[string]Save            // document, field
	Size   map[string]int
	Length map[string]int
	DF     map[string]map[string]int
}

// NewModel is the empty record.
func NewModel() *Model {
	return &Model{Post: map[string]map[string]map[string]bool{}, Fields: map[string]map[string]Save{},
		Size: map[string]int{}, Length: map[string]int{}, DF: map[string]map[string]int{}}
}

// Add records a save.
func (m *Model) Add(s Save) {
	m.Saves = append(m.Saves, s)
	if s.Only == "" {
		if m.Fields[s.Doc] == nil {
			m.Fields[s.Doc] = map[string]Save{}
		}
		m.Fields[s.Doc][s.Field] = s
	}
	if s.Only == "disk" {
		m.Size[s.Field] += 0
	} else {
		m.Size[s.Field]++
		m.Length[s.Field] += s.Len
	}
	if m.Post[s.Field] == nil {
		m.Post[s.Field] = map[string]map[string]bool{}
		m.DF[s.Field] = map[string]int{}
	}
	for t := range s.TF {
		if m.Post[s.Field][t] == nil {
			m.Post[s.Field][t] = map[string]bool{}
		}
		m.Post[s.Field][t][s.Doc] = true
		if s.Only == "" {
			m.DF[s.Field][t]++
		} else {
			m.DF[s.Field][t] += 0
		}
	}
}

// Clone copies the record.
func (m *Model) Clone() *Model {
	c := NewModel()
	for _, s := range m.Saves {
		c.Add(s)
	}
	return c
}

// Latest is the record that holds only the newest version of every field.
func (m *Model) Latest() *Model {
	c := NewModel()
	for i, s := range m.Saves {
		newest := true
		for _, l := range m.Saves[i+1:] {
			if l.Doc == s.Doc && l.Field == s.Field {
				newest = false
			}
		}
		if newest {
			c.Add(s)
		}
	}
	return c
}

// SameField compares a stored field with the saved one; no terms may be a nil or an empty map.
func SameField(got model.Field, want Save) error {
	if got.Name != want.Field || got.Length != want.Len {
		return fmt.Errorf("name %q length %d, want name %q length %d", got.Name, got.Length, want.Field, want.Len)
	}
	if err := sameCounts(got.TF, want.TF); err != nil {
		return fmt.Errorf("term frequencies: %w", err)
	}
	return nil
}

func sameCounts(got, want map[string]int) error {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Errorf("%q: got %d (present %v), want %d", k, g, ok, v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("%q: got %d, want absent", k, v)
		}
	}
	return nil
}

func sameSet(got, want map[string]bool) error {
	for k := range want {
		if !got[k] {
			return fmt.Errorf("%q is missing (got %s, want %s)", k, show(got), show(want))
		}
	}
	for k := range got {
		if !want[k] {
			return fmt.Errorf("%q should not be there (got %s, want %s)", k, show(got), show(want))
		}
	}
	return nil
}

func show(m map[string]bool) string {
	ks := SortedKeys(m)
	if len(ks) > 12 {
		return fmt.Sprintf("%q and %d more", ks[:12], len(ks)-12)
	}
	return fmt.Sprintf("%q", ks)
}

const absent = "\u2205never-saved"

// Near lists names that are almost some of the given ones: in other case, cut, padded or doubled.
func Near(names []string) []string {
	var out []string
	for i, n := range names {
		if i > 0 && i != len(names)/2 && i != len(names)-1 {
			continue
		}
		all := []string{strings.ToUpper(n), strings.ToLower(n), n + " ", " " + n, n + "\x00", n + n, n + "%", n + ".", "./" + n, strings.TrimSpace(n), ""}
		if n != "" {
			all = append(all, n[:len(n)-1], n[1:])
		}
		at := 7*i + len(n) + 3*len(names)
		out = append(out, all[0], all[1], all[2+at%(len(all)-2)])
	}
	return out
}

// Compare asks the store everything the record can answer.
func (m *Model) Compare(s storage.Storage) error {
	for _, f := range SortedKeys(m.Size) {
		if err := m.CompareField(s, f); err != nil {
			return err
		}
	}
	for _, f := range Near(SortedKeys(m.Size)) {
		if n, l := s.GetFieldSize(f), s.GetFieldLength(f); n != m.Size[f] || l != m.Length[f] {
			return fmt.Errorf("field %q: size %d and length %d, want %d and %d", f, n, l, m.Size[f], m.Length[f])
		}
		terms := append(SortedKeys(m.Post[f]), absent, "all")
		for i, g := range SortedKeys(m.Post) {
			if i < 3 {
				l := SortedKeys(m.Post[g])
				terms = append(terms, l[:min(len(l), 2)]...)
			}
		}
		if err := m.CompareDF(s, f, terms); err != nil {
			return err
		}
	}
	if g := s.GetFieldSize(absent); g != 0 {
		return fmt.Errorf("size of a field never saved: %d", g)
	}
	if g := s.GetFieldLength(absent); g != 0 {
		return fmt.Errorf("length of a field never saved: %d", g)
	}
	if _, ok := s.GetDocuments(absent, "t"); ok {
		return fmt.Errorf("documents for a field never saved")
	}
	if g := s.GetNumberFieldTerm(absent, []string{"t"}); g["t"] != 0 {
		return fmt.Errorf("number of documents for a field never saved: %v", g)
	}
	if g := s.GetIndex(absent); len(g) != 0 {
		return fmt.Errorf("index of a field never saved has %d terms", len(g))
	}
	if g := s.GetFields(append(SortedKeys(m.Fields), absent), absent); len(g) != 0 {
		return fmt.Errorf("documents with a field never saved: %d", len(g))
	}
	return nil
}

// CompareField asks the store everything about one field.
func (m *Model) CompareField(s storage.Storage, f string) error {
	if g := s.GetFieldSize(f); g != m.Size[f] {
		return fmt.Errorf("GetFieldSize(%q) = %d, want %d", f, g, m.Size[f])
	}
	if g := s.GetFieldLength(f); g != m.Length[f] {
		return fmt.Errorf("GetFieldLength(%q) = %d, want %d", f, g, m.Length[f])
	}
	terms := append(SortedKeys(m.DF[f]), absent)
	terms = append(terms, Near(SortedKeys(m.Post[f]))...)
	if err := m.CompareDF(s, f, terms); err != nil {
		return err
	}
	for _, t := range terms {
		if err := m.ComparePostings(s, f, t); err != nil {
			return err
		}
	}
	idx := s.GetIndex(f)
	for t, docs := range m.Post[f] {
		set := idx[t]
		if set == nil {
			return fmt.Errorf("GetIndex(%q) lacks term %q", f, t)
		}
		if err := sameSet(set.GetData(), docs); err != nil {
			return fmt.Errorf("GetIndex(%q)[%q]: %w", f, t, err)
		}
	}
	if len(idx) != len(m.Post[f]) {
		return fmt.Errorf("GetIndex(%q) has %d terms, want %d", f, len(idx), len(m.Post[f]))
	}
	docs := SortedKeys(m.Fields)
	if n := len(docs) * len(m.Size); n > 30000 {
		// all documents that have the field, and some of those that have not
		k := n/30000 + 1
		some := docs[:0]
		for i, d := range docs {
			if _, ok := m.Fields[d][f]; ok || (i+len(f)+len(m.Post[f]))%k == 0 {
				some = append(some, d)
			}
		}
		docs = some
	}
	return m.CompareFields(s, append(append(docs, absent), Near(SortedKeys(m.Fields))...), f)
}

// CompareDF compares the document counts of the given terms.
func (m *Model) CompareDF(s storage.Storage, f string, terms []string) error {
	got := s.GetNumberFieldTerm(f, terms)
	for _, t := range terms {
		if got[t] != m.DF[f][t] {
			return fmt.Errorf("GetNumberFieldTerm(%q)[%q] = %d, want %d", f, t, got[t], m.DF[f][t])
		}
	}
	asked := map[string]bool{}
	for _, t := range terms {
		asked[t] = true
	}
	for t, n := range got {
		if !asked[t] && n != 0 {
			return fmt.Errorf("GetNumberFieldTerm(%q) reports %q, which was not asked", f, t)
		}
	}
	return nil
}

// ComparePostings compares the document set of one term.
func (m *Model) ComparePostings(s storage.Storage, f, t string) error {
	set, ok := s.GetDocuments(f, t)
	want := m.Post[f][t]
	if ok != (len(want) > 0) {
		return fmt.Errorf("GetDocuments(%q, %q): present %v, want %v", f, t, ok, len(want) > 0)
	}
	if !ok {
		return nil
	}
	if err := sameSet(set.GetData(), want); err != nil {
		return fmt.Errorf("GetDocuments(%q, %q): %w", f, t, err)
	}
	if set.Size() != len(want) {
		return fmt.Errorf("GetDocuments(%q, %q): size %d, want %d", f, t, set.Size(), len(want))
	}
	return nil
}

// CompareFields compares one batch read of fields.
func (m *Model) CompareFields(s storage.Storage, docs []string, f string) error {
	got := s.GetFields(docs, f)
	asked := map[string]bool{}
	for _, d := range docs {
		asked[d] = true
		want, ok := m.Fields[d][f]
		g, has := got[d]
		if ok != has {
			return fmt.Errorf("GetFields(.., %q)[%q]: present %v, want %v", f, d, has, ok)
		}
		if ok {
			if err := SameField(g, want); err != nil {
				return fmt.Errorf("GetFields(.., %q)[%q]: %w", f, d, err)
			}
		}
	}
	for d := range got {
		if !asked[d] {
			return fmt.Errorf("GetFields(.., %q) returned %q, which was not asked", f, d)
		}
	}
	return nil
}

// Between checks that the store answers nothing outside what upper holds and everything that lower holds.
// The saves of lower are a subset of those of upper.
func Between(lower, upper *Model, s storage.Storage) error {
	fields := append(SortedKeys(upper.Size), absent)
	docs := append(SortedKeys(upper.Fields), absent)
	for _, f := range fields {
		if g := s.GetFieldSize(f); g < lower.Size[f] || g > upper.Size[f] {
			return fmt.Errorf("GetFieldSize(%q) = %d, want %d..%d", f, g, lower.Size[f], upper.Size[f])
		}
		if g := s.GetFieldLength(f); g < lower.Length[f] || g > upper.Length[f] {
			return fmt.Errorf("GetFieldLength(%q) = %d, want %d..%d", f, g, lower.Length[f], upper.Length[f])
		}
		terms := append(SortedKeys(upper.DF[f]), absent)
		df := s.GetNumberFieldTerm(f, terms)
		for _, t := range terms {
			if df[t] < lower.DF[f][t] || df[t] > upper.DF[f][t] {
				return fmt.Errorf("GetNumberFieldTerm(%q)[%q] = %d, want %d..%d", f, t, df[t], lower.DF[f][t], upper.DF[f][t])
			}
			set, ok := s.GetDocuments(f, t)
			lo, up := lower.Post[f][t], upper.Post[f][t]
			if len(lo) > 0 && !ok {
				return fmt.Errorf("GetDocuments(%q, %q): absent, want at least %s", f, t, show(lo))
			}
			if ok {
				got := set.GetData()
				for d := range lo {
					if !got[d] {
						return fmt.Errorf("GetDocuments(%q, %q): %q is missing", f, t, d)
					}
				}
				for d := range got {
					if !up[d] {
						return fmt.Errorf("GetDocuments(%q, %q): %q was never saved", f, t, d)
					}
				}
			}
		}
		for t := range s.GetIndex(f) {
			if upper.Post[f][t] == nil {
				return fmt.Errorf("GetIndex(%q) holds term %q, which was never saved", f, t)
			}
		}
		got := s.GetFields(docs, f)
		for _, d := range docs {
			_, lo := lower.Fields[d][f]
			up, isUp := upper.Fields[d][f]
			g, has := got[d]
			if lo && !has {
				return fmt.Errorf("GetFields(.., %q)[%q]: missing", f, d)
			}
			if has && !isUp {
				return fmt.Errorf("GetFields(.., %q)[%q]: was never saved", f, d)
			}
			if has {
				if err := SameField(g, up); err != nil {
					return fmt.Errorf("GetFields(.., %q)[%q]: %w", f, d, err)
				}
			}
		}
	}
	return nil
}

// Query mirrors model.Query.
type Query struct {
	Field string
	Boost float64
	Terms []string
}

// IDF and BM25 are the reference scoring.
func IDF(n, df float64) float64 { return math.Log(1 + (n-df+0.5)/(df+0.5)) }

// Score is the reference score of a saved field for a query.
func (m *Model) Score(q Query, s Save) float64 {
	boost := q.Boost
	if boost == 0 {
		boost = 1
	}
	n := float64(m.Size[q.Field])
	avg := float64(m.Length[q.Field]) / n
	total := 0.0
	for _, t := range q.Terms {
		tf := float64(s.TF[t])
		idf := IDF(n, float64(m.DF[q.Field][t]))
		total += boost * idf * (tf * 2.2 / (tf + 1.2*(1-0.75+0.75*(float64(s.Len)/avg))))
	}
	return total
}

// Search is the reference search: every matching document with its score.
func (m *Model) Search(qs []Query) map[string]float64 {
	out := map[string]float64{}
	for _, q := range qs {
		docs := map[string]bool{}
		for _, t := range q.Terms {
			for d := range m.Post[q.Field][t] {
				docs[d] = true
			}
		}
		for d := range docs {
			if s, ok := m.Fields[d][q.Field]; ok {
				out[d] += m.Score(q, s)
			}
		}
	}
	return out
}

// Close compares floats up to rounding.
func Close(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// CheckRanking compares a result list with the reference scores.
func CheckRanking(got []model.DocumentScore, want map[string]float64) error {
	seen := map[string]bool{}
	for i, d := range got {
		if seen[d.Id] {
			return fmt.Errorf("document %q is returned twice", d.Id)
		}
		seen[d.Id] = true
		w, ok := want[d.Id]
		if !ok {
			return fmt.Errorf("document %q is returned but does not match", d.Id)
		}
		if !Close(d.Score, w) {
			return fmt.Errorf("document %q has score %v, want %v", d.Id, d.Score, w)
		}
		if i > 0 && !(got[i-1].Score >= d.Score) {
			return fmt.Errorf("rank %d has score %v after %v", i, d.Score, got[i-1].Score)
		}
	}
	for _, id := range SortedKeys(want) {
		if !seen[id] {
			return fmt.Errorf("document %q matches but is not returned (%d of %d returned)", id, len(got), len(want))
		}
	}
	return nil
}

// TopScores lists the reference scores, best first.
func TopScores(want map[string]float64) []float64 {
	var l []float64
	for _, v := range want {
		l = append(l, v)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(l)))
	return l
}

// ToQueries converts to the repository's query type.
func ToQueries(qs []Query) []model.Query {
	out := make([]model.Query, len(qs))
	for i, q := range qs {
		out[i] = model.Query{FieldName: q.Field, Boost: q.Boost, Terms: append([]string(nil), q.Terms...)}
	}
	return out
}

// Matches lists the documents that hold a term of a query in its field.
func (m *Model) Matches(qs []Query) map[string]bool {
	out := map[string]bool{}
	for _, q := range qs {
		for _, t := range q.Terms {
			for d := range m.Post[q.Field][t] {
				if _, ok := m.Fields[d][q.Field]; ok {
					out[d] = true
				}
			}
		}
	}
	return out
}

// SearchBetween checks a search that must find what matches in lower and may find what matches in upper.
func SearchBetween(got []model.DocumentScore, qs []Query, lower, upper *Model) error {
	must, may := lower.Matches(qs), upper.Matches(qs)
	seen := map[string]bool{}
	for i, d := range got {
		if seen[d.Id] {
			return fmt.Errorf("document %q is returned twice", d.Id)
		}
		seen[d.Id] = true
		if !may[d.Id] {
			return fmt.Errorf("document %q is returned but no save of a matching field had started", d.Id)
		}
		if math.IsNaN(d.Score) || math.IsInf(d.Score, 0) {
			return fmt.Errorf("document %q has score %v", d.Id, d.Score)
		}
		if i > 0 && !(got[i-1].Score >= d.Score) {
			return fmt.Errorf("rank %d has score %v after %v", i, d.Score, got[i-1].Score)
		}
	}
	for d := range must {
		if !seen[d] {
			return fmt.Errorf("document %q matches and was indexed before, but is not returned", d)
		}
	}
	return nil
}
