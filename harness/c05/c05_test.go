package c05

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"reflect"
	"testing"

	flatbuffers "github.com/google/flatbuffers/go"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	fb "github.com/sira-serverless-ir-arch/goirlib/storage/buffers"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Str = h.Str

type Count struct {
	Key Str
	N   int32
}

type Posting struct {
	Term Str
	Docs []Str
	More int // so many more generated documents
}

type Field struct {
	Key, Name Str
	Length    int32
	TF        []Count
	More      int
}

type Case struct {
	Index   []Posting
	Fields  []Field
	Counts  []Count
	More    int // so many more generated entries in every table
	Name    Str
	Size    int32
	Length  int32
	Total   int64
	Mutated int32
}

func int32s() *rapid.Generator[int32] {
	return rapid.OneOf(rapid.Int32Range(0, 5), rapid.Int32Range(0, 5), rapid.Int32(),
		rapid.SampledFrom([]int32{0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, math.MaxInt32, math.MinInt32}))
}

func counts(t *rapid.T, label string) []Count {
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Count {
		return Count{h.AnyStr().Draw(t, "key"), int32s().Draw(t, "n")}
	}), least(t), 8, func(c Count) Str { return c.Key }).Draw(t, label)
}

func more(t *rapid.T) int {
	if rapid.IntRange(0, 11).Draw(t, "big") > 0 {
		return 0
	}
	if rapid.IntRange(0, 99).Draw(t, "huge") == 0 {
		return h.Size(100000).Draw(t, "more")
	}
	return h.Size(3000).Draw(t, "more")
}

// least draws how many entries there are at least.
func least(t *rapid.T) int { return rapid.SampledFrom([]int{2, 0, 1, 2, 3}).Draw(t, "least") }

func gen(t *rapid.T) Case {
	c := Case{
		Index: rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Posting {
			return Posting{Term: h.AnyStr().Draw(t, "term"), Docs: rapid.SliceOfNDistinct(h.AnyStr(), 0, 6, func(s Str) Str { return s }).Draw(t, "docs"), More: more(t)}
		}), least(t), 6, func(p Posting) Str { return p.Term }).Draw(t, "index"),
		Fields: rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Field {
			f := Field{Key: h.AnyStr().Draw(t, "key"), Length: int32s().Draw(t, "len"), TF: counts(t, "tf"), More: more(t)}
			f.Name = f.Key
			if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
				f.Name = h.AnyStr().Draw(t, "name")
			}
			return f
		}), least(t), 5, func(f Field) Str { return f.Key }).Draw(t, "fields"),
		Counts: counts(t, "counts"), More: more(t),
		Name: h.AnyStr().Draw(t, "name"), Size: int32s().Draw(t, "size"), Length: int32s().Draw(t, "length"),
		Total:   rapid.OneOf(rapid.Int64(), rapid.Int64Range(0, 1<<34), rapid.Map(int32s(), func(n int32) int64 { return int64(n) })).Draw(t, "total"),
		Mutated: int32s().Draw(t, "mutated"),
	}
	return c
}

func via(b []byte) []byte { return file.DecompressData(file.CompressData(b)) }

func check(c Case, o *h.Obs) error {
	o.Nontrivial(len(c.Index) > 1 && len(c.Fields) > 1 && len(c.Counts) > 1)
	empties := len(c.Index) == 0 || len(c.Fields) == 0 || len(c.Counts) == 0
	// index
	idx := map[string]map[string]bool{}
	for _, p := range c.Index {
		set := map[string]bool{}
		for _, d := range p.Docs {
			set[string(d)] = true
		}
		for i := 0; i < p.More; i++ {
			set[fmt.Sprintf("more%d", i)] = true
		}
		empties = empties || len(set) == 0
		o.Class(p.More > 0, "long posting list")
		idx[string(p.Term)] = set
	}
	for i := 0; i < c.More; i++ {
		idx[fmt.Sprintf("more%d", i)] = map[string]bool{fmt.Sprintf("d%d", i%7): true}
	}
	if got := storage.DeserializeIndex(storage.SerializeIndex(idx)); !reflect.DeepEqual(got, idx) {
		return fmt.Errorf("index reads back as %.500q, was %.500q", fmt.Sprint(got), fmt.Sprint(idx))
	}
	if got := storage.DeserializeIndex(via(storage.SerializeIndex(idx))); !reflect.DeepEqual(got, idx) {
		return fmt.Errorf("compressed index reads back differently")
	}
	// document fields
	fields := map[string]model.Field{}
	for _, f := range c.Fields {
		tf := map[string]int{}
		for _, x := range f.TF {
			tf[string(x.Key)] = int(x.N)
		}
		for i := 0; i < f.More; i++ {
			tf[fmt.Sprintf("more%d", i)] = i
		}
		empties = empties || len(tf) == 0
		fields[string(f.Key)] = model.Field{Name: string(f.Name), Length: int(f.Length), TF: tf}
	}
	for i := 0; i < c.More; i++ {
		fields[fmt.Sprintf("more%d", i)] = model.Field{Name: fmt.Sprintf("more%d", i), Length: i, TF: map[string]int{"x": i}}
	}
	if got := storage.DeserializeFieldMap(storage.SerializeFieldMap(fields)); !reflect.DeepEqual(got, fields) {
		return fmt.Errorf("fields read back as %.500q, were %.500q", fmt.Sprint(got), fmt.Sprint(fields))
	}
	if got := storage.DeserializeFieldMap(via(storage.SerializeFieldMap(fields))); !reflect.DeepEqual(got, fields) {
		return fmt.Errorf("compressed fields read back differently")
	}
	o.Class(empties, "an empty collection")
	// counts
	cs := map[string]int{}
	for _, x := range c.Counts {
		cs[string(x.Key)] = int(x.N)
	}
	for i := 0; i < c.More; i++ {
		cs[fmt.Sprintf("more%d", i)] = i * 1000
	}
	if got := storage.DeserializeNumberFieldTerm(via(storage.SerializeNumberFieldTerm(cs))); !reflect.DeepEqual(got, cs) {
		return fmt.Errorf("counts read back as %.500q, were %.500q", fmt.Sprint(got), fmt.Sprint(cs))
	}
	// metrics
	n, s, l := storage.DeserializeFieldSizeLength(via(storage.SerializeFieldSizeLength(string(c.Name), c.Size, c.Total)))
	if n != string(c.Name) || s != c.Size || l != c.Total {
		return fmt.Errorf("metrics read back as %q %d %d, were %q %d %d", n, s, l, c.Name, c.Size, c.Total)
	}
	// metrics as they were written before there was a total
	b := flatbuffers.NewBuilder(0)
	name := b.CreateString(string(c.Name))
	b.StartObject(3)
	b.PrependUOffsetTSlot(0, name, 0)
	b.PrependInt32Slot(1, c.Size, 0)
	b.PrependInt32Slot(2, c.Length, 0)
	b.Finish(b.EndObject())
	n, s, l = storage.DeserializeFieldSizeLength(via(b.FinishedBytes()))
	if n != string(c.Name) || s != c.Size || l != int64(c.Length) {
		return fmt.Errorf("metrics of an old store read as %q %d %d, were %q %d %d", n, s, l, c.Name, c.Size, c.Length)
	}
	for _, prefixed := range []bool{false, true} {
		if err := tables(c, prefixed); err != nil {
			return fmt.Errorf("tables (size-prefixed: %v): %w", prefixed, err)
		}
	}
	return nil
}

func eq(what string, got, want any) error {
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%s: got %v, want %v", what, got, want)
	}
	return nil
}

type U = flatbuffers.UOffsetT

// vec writes a vector of offsets.
func vec(b *flatbuffers.Builder, start func(*flatbuffers.Builder, int) U, l []U) U {
	start(b, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		b.PrependUOffsetT(l[i])
	}
	return b.EndVector(len(l))
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// tables writes and reads every declared table through its own accessors.
func tables(c Case, prefixed bool) error {
	junk := 0
	if len(c.Name) < 40 {
		junk = len(c.Name) % 9 // reading starts at an offset into a larger buffer
	}
	place := func(buf []byte) ([]byte, U) {
		if prefixed {
			return append(bytes.Repeat([]byte{0xEE}, junk), buf...), U(junk)
		}
		return append(bytes.Repeat([]byte{0xEE}, junk), buf...), U(junk)
	}
	name, n, m := string(c.Name), c.Size, c.Length
	var docs []string
	for _, p := range c.Index {
		docs = append(docs, string(p.Term))
	}
	var errs []error
	add := func(e error) {
		if e != nil {
			errs = append(errs, e)
		}
	}
	build := func(f func(b *flatbuffers.Builder) U, fin, finP func(*flatbuffers.Builder, U)) ([]byte, U) {
		b := flatbuffers.NewBuilder(0)
		root := f(b)
		if prefixed {
			finP(b, root)
		} else {
			fin(b, root)
		}
		return place(b.FinishedBytes())
	}
	writeTF := func(b *flatbuffers.Builder, k string, v int32) U {
		o := b.CreateString(k)
		fb.TermFrequencyStart(b)
		fb.TermFrequencyAddKey(b, o)
		fb.TermFrequencyAddValue(b, v)
		return fb.TermFrequencyEnd(b)
	}
	writeTS := func(b *flatbuffers.Builder, k string, v int32) U {
		o := b.CreateString(k)
		fb.TermSizeStart(b)
		fb.TermSizeAddKey(b, o)
		fb.TermSizeAddValue(b, v)
		return fb.TermSizeEnd(b)
	}
	writeDoc := func(b *flatbuffers.Builder, docs []string) U {
		var l []U
		for _, d := range docs {
			l = append(l, b.CreateString(d))
		}
		v := vec(b, fb.DocumentStartValuesVector, l)
		fb.DocumentStart(b)
		fb.DocumentAddValues(b, v)
		return fb.DocumentEnd(b)
	}
	writeTerm := func(b *flatbuffers.Builder, k string, docs []string) U {
		o := b.CreateString(k)
		d := writeDoc(b, docs)
		fb.TermStart(b)
		fb.TermAddKey(b, o)
		fb.TermAddValues(b, d)
		return fb.TermEnd(b)
	}
	writeField := func(b *flatbuffers.Builder) U {
		o := b.CreateString(name)
		var l []U
		for _, x := range c.Counts {
			l = append(l, writeTF(b, string(x.Key), x.N))
		}
		v := vec(b, fb.FieldStartTfVector, l)
		fb.FieldStart(b)
		fb.FieldAddName(b, o)
		fb.FieldAddLength(b, m)
		fb.FieldAddTf(b, v)
		return fb.FieldEnd(b)
	}
	writeFieldTerm := func(b *flatbuffers.Builder) U {
		var l []U
		for _, x := range c.Counts {
			l = append(l, writeTS(b, string(x.Key), x.N))
		}
		v := vec(b, fb.FieldTermStartEntriesVector, l)
		fb.FieldTermStart(b)
		fb.FieldTermAddEntries(b, v)
		return fb.FieldTermEnd(b)
	}
	checkDoc := func(d *fb.Document, docs []string) error {
		if err := eq("Document.ValuesLength", d.ValuesLength(), len(docs)); err != nil {
			return err
		}
		for i, s := range docs {
			if err := eq("Document.Values", string(d.Values(i)), s); err != nil {
				return err
			}
		}
		return nil
	}
	checkField := func(f *fb.Field) error {
		if err := first(eq("Field.Name", string(f.Name()), name), eq("Field.Length", f.Length(), m), eq("Field.TfLength", f.TfLength(), len(c.Counts))); err != nil {
			return err
		}
		var x fb.TermFrequency
		for i, w := range c.Counts {
			if !f.Tf(&x, i) {
				return fmt.Errorf("Field.Tf(%d) fails", i)
			}
			if err := first(eq("TermFrequency.Key", string(x.Key()), string(w.Key)), eq("TermFrequency.Value", x.Value(), w.N)); err != nil {
				return err
			}
		}
		return nil
	}
	checkFieldTerm := func(f *fb.FieldTerm) error {
		if err := eq("FieldTerm.EntriesLength", f.EntriesLength(), len(c.Counts)); err != nil {
			return err
		}
		var x fb.TermSize
		for i, w := range c.Counts {
			if !f.Entries(&x, i) {
				return fmt.Errorf("FieldTerm.Entries(%d) fails", i)
			}
			if err := first(eq("TermSize.Key", string(x.Key()), string(w.Key)), eq("TermSize.Value", x.Value(), w.N)); err != nil {
				return err
			}
		}
		return nil
	}
	// a value can be changed in place exactly when it is stored (the default 0 is not)
	mutate := func(what string, stored int32, mut func(int32) bool, get func() int32) error {
		ok := mut(c.Mutated)
		want := c.Mutated
		if stored == 0 {
			want = 0
		}
		return first(eq(what+" mutable", ok, stored != 0), eq(what+" after mutation", get(), want))
	}

	buf, at := build(func(b *flatbuffers.Builder) U { return writeTF(b, name, n) }, fb.FinishTermFrequencyBuffer, fb.FinishSizePrefixedTermFrequencyBuffer)
	tf := pick(prefixed, fb.GetRootAsTermFrequency, fb.GetSizePrefixedRootAsTermFrequency)(buf, at)
	add(first(eq("TermFrequency.Key", string(tf.Key()), name), eq("TermFrequency.Value", tf.Value(), n), mutate("TermFrequency.Value", n, tf.MutateValue, tf.Value), eq("TermFrequency.Key", string(tf.Key()), name)))

	buf, at = build(func(b *flatbuffers.Builder) U { return writeTS(b, name, n) }, fb.FinishTermSizeBuffer, fb.FinishSizePrefixedTermSizeBuffer)
	ts := pick(prefixed, fb.GetRootAsTermSize, fb.GetSizePrefixedRootAsTermSize)(buf, at)
	add(first(eq("TermSize.Key", string(ts.Key()), name), eq("TermSize.Value", ts.Value(), n), mutate("TermSize.Value", n, ts.MutateValue, ts.Value)))

	buf, at = build(func(b *flatbuffers.Builder) U { return writeDoc(b, docs) }, fb.FinishDocumentBuffer, fb.FinishSizePrefixedDocumentBuffer)
	add(checkDoc(pick(prefixed, fb.GetRootAsDocument, fb.GetSizePrefixedRootAsDocument)(buf, at), docs))

	buf, at = build(func(b *flatbuffers.Builder) U { return writeTerm(b, name, docs) }, fb.FinishTermBuffer, fb.FinishSizePrefixedTermBuffer)
	tm := pick(prefixed, fb.GetRootAsTerm, fb.GetSizePrefixedRootAsTerm)(buf, at)
	add(first(eq("Term.Key", string(tm.Key()), name), checkDoc(tm.Values(nil), docs)))

	buf, at = build(func(b *flatbuffers.Builder) U {
		var l []U
		for _, d := range docs {
			l = append(l, writeTerm(b, d, docs))
		}
		v := vec(b, fb.IndexStartEntriesVector, l)
		fb.IndexStart(b)
		fb.IndexAddEntries(b, v)
		return fb.IndexEnd(b)
	}, fb.FinishIndexBuffer, fb.FinishSizePrefixedIndexBuffer)
	ix := pick(prefixed, fb.GetRootAsIndex, fb.GetSizePrefixedRootAsIndex)(buf, at)
	add(eq("Index.EntriesLength", ix.EntriesLength(), len(docs)))
	for i, d := range docs {
		var x fb.Term
		if !ix.Entries(&x, i) {
			return fmt.Errorf("Index.Entries(%d) fails", i)
		}
		add(first(eq("Index term", string(x.Key()), d), checkDoc(x.Values(nil), docs)))
	}

	buf, at = build(writeField, fb.FinishFieldBuffer, fb.FinishSizePrefixedFieldBuffer)
	fd := pick(prefixed, fb.GetRootAsField, fb.GetSizePrefixedRootAsField)(buf, at)
	add(checkField(fd))
	add(mutate("Field.Length", m, fd.MutateLength, fd.Length))

	buf, at = build(func(b *flatbuffers.Builder) U {
		o, f := b.CreateString(name+"k"), writeField(b)
		fb.FieldEntryStart(b)
		fb.FieldEntryAddKey(b, o)
		fb.FieldEntryAddValue(b, f)
		return fb.FieldEntryEnd(b)
	}, fb.FinishFieldEntryBuffer, fb.FinishSizePrefixedFieldEntryBuffer)
	fe := pick(prefixed, fb.GetRootAsFieldEntry, fb.GetSizePrefixedRootAsFieldEntry)(buf, at)
	add(first(eq("FieldEntry.Key", string(fe.Key()), name+"k"), checkField(fe.Value(nil))))

	writeFM := func(b *flatbuffers.Builder, k string) U {
		o, f := b.CreateString(k), writeField(b)
		fb.FieldMapStart(b)
		fb.FieldMapAddKey(b, o)
		fb.FieldMapAddValue(b, f)
		return fb.FieldMapEnd(b)
	}
	buf, at = build(func(b *flatbuffers.Builder) U { return writeFM(b, name+"k") }, fb.FinishFieldMapBuffer, fb.FinishSizePrefixedFieldMapBuffer)
	fm := pick(prefixed, fb.GetRootAsFieldMap, fb.GetSizePrefixedRootAsFieldMap)(buf, at)
	add(first(eq("FieldMap.Key", string(fm.Key()), name+"k"), checkField(fm.Value(nil))))

	buf, at = build(func(b *flatbuffers.Builder) U {
		var l []U
		for _, d := range docs {
			l = append(l, writeFM(b, d))
		}
		v := vec(b, fb.RootFieldEntryStartEntriesVector, l)
		fb.RootFieldEntryStart(b)
		fb.RootFieldEntryAddEntries(b, v)
		return fb.RootFieldEntryEnd(b)
	}, fb.FinishRootFieldEntryBuffer, fb.FinishSizePrefixedRootFieldEntryBuffer)
	re := pick(prefixed, fb.GetRootAsRootFieldEntry, fb.GetSizePrefixedRootAsRootFieldEntry)(buf, at)
	add(eq("RootFieldEntry.EntriesLength", re.EntriesLength(), len(docs)))
	for i, d := range docs {
		var x fb.FieldMap
		if !re.Entries(&x, i) {
			return fmt.Errorf("RootFieldEntry.Entries(%d) fails", i)
		}
		add(first(eq("RootFieldEntry key", string(x.Key()), d), checkField(x.Value(nil))))
	}

	buf, at = build(writeFieldTerm, fb.FinishFieldTermBuffer, fb.FinishSizePrefixedFieldTermBuffer)
	add(checkFieldTerm(pick(prefixed, fb.GetRootAsFieldTerm, fb.GetSizePrefixedRootAsFieldTerm)(buf, at)))

	buf, at = build(func(b *flatbuffers.Builder) U {
		v := vec(b, fb.RootFieldTermStartEntriesVector, []U{writeFieldTerm(b), writeFieldTerm(b)})
		fb.RootFieldTermStart(b)
		fb.RootFieldTermAddEntries(b, v)
		return fb.RootFieldTermEnd(b)
	}, fb.FinishRootFieldTermBuffer, fb.FinishSizePrefixedRootFieldTermBuffer)
	rt := pick(prefixed, fb.GetRootAsRootFieldTerm, fb.GetSizePrefixedRootAsRootFieldTerm)(buf, at)
	add(eq("RootFieldTerm.EntriesLength", rt.EntriesLength(), 2))
	for i := 0; i < 2; i++ {
		var x fb.FieldTerm
		if !rt.Entries(&x, i) {
			return fmt.Errorf("RootFieldTerm.Entries(%d) fails", i)
		}
		add(checkFieldTerm(&x))
	}

	buf, at = build(func(b *flatbuffers.Builder) U {
		o := b.CreateString(name)
		fb.FieldMetricsStart(b)
		fb.FieldMetricsAddName(b, o)
		fb.FieldMetricsAddSize(b, n)
		fb.FieldMetricsAddLength(b, m)
		fb.FieldMetricsAddTotal(b, c.Total)
		return fb.FieldMetricsEnd(b)
	}, fb.FinishFieldMetricsBuffer, fb.FinishSizePrefixedFieldMetricsBuffer)
	me := pick(prefixed, fb.GetRootAsFieldMetrics, fb.GetSizePrefixedRootAsFieldMetrics)(buf, at)
	add(first(eq("FieldMetrics.Name", string(me.Name()), name), eq("FieldMetrics.Size", me.Size(), n), eq("FieldMetrics.Length", me.Length(), m),
		mutate("FieldMetrics.Size", n, me.MutateSize, me.Size), eq("FieldMetrics.Length", me.Length(), m),
		mutate("FieldMetrics.Length", m, me.MutateLength, me.Length), eq("FieldMetrics.Total", me.Total(), c.Total)))

	buf, at = build(func(b *flatbuffers.Builder) U {
		o := b.CreateString(name)
		fb.FieldMetrixStart(b)
		fb.FieldMetrixAddName(b, o)
		fb.FieldMetrixAddSize(b, n)
		fb.FieldMetrixAddLength(b, m)
		return fb.FieldMetrixEnd(b)
	}, fb.FinishFieldMetrixBuffer, fb.FinishSizePrefixedFieldMetrixBuffer)
	mx := pick(prefixed, fb.GetRootAsFieldMetrix, fb.GetSizePrefixedRootAsFieldMetrix)(buf, at)
	add(first(eq("FieldMetrix.Name", string(mx.Name()), name), eq("FieldMetrix.Size", mx.Size(), n), eq("FieldMetrix.Length", mx.Length(), m),
		mutate("FieldMetrix.Size", n, mx.MutateSize, mx.Size), mutate("FieldMetrix.Length", m, mx.MutateLength, mx.Length)))

	// tables without any member read as empty
	buf, at = build(func(b *flatbuffers.Builder) U { fb.FieldStart(b); return fb.FieldEnd(b) }, fb.FinishFieldBuffer, fb.FinishSizePrefixedFieldBuffer)
	ef := pick(prefixed, fb.GetRootAsField, fb.GetSizePrefixedRootAsField)(buf, at)
	add(first(eq("empty Field.Name", string(ef.Name()), ""), eq("empty Field.Length", ef.Length(), int32(0)), eq("empty Field.TfLength", ef.TfLength(), 0), eq("empty Field.Tf", ef.Tf(&fb.TermFrequency{}, 0), false)))
	buf, at = build(func(b *flatbuffers.Builder) U { fb.TermStart(b); return fb.TermEnd(b) }, fb.FinishTermBuffer, fb.FinishSizePrefixedTermBuffer)
	et := pick(prefixed, fb.GetRootAsTerm, fb.GetSizePrefixedRootAsTerm)(buf, at)
	add(first(eq("empty Term.Key", string(et.Key()), ""), eq("empty Term.Values", et.Values(nil) == nil, true)))
	buf, at = build(func(b *flatbuffers.Builder) U { fb.DocumentStart(b); return fb.DocumentEnd(b) }, fb.FinishDocumentBuffer, fb.FinishSizePrefixedDocumentBuffer)
	ed := pick(prefixed, fb.GetRootAsDocument, fb.GetSizePrefixedRootAsDocument)(buf, at)
	add(first(eq("empty Document.ValuesLength", ed.ValuesLength(), 0), eq("empty Document.Values", len(ed.Values(0)), 0)))
	return first(errs...)
}

func pick[T any](prefixed bool, plain, pre func([]byte, U) *T) func([]byte, U) *T {
	if prefixed {
		return pre
	}
	return plain
}

type Blob struct {
	Data   []byte
	Repeat int
	Random int      // so many bytes that do not compress, after the others
	Head   []byte   `json:",omitempty"` // what other formats begin with, before the others
	Packed []string `json:",omitempty"` // packed already, in these ways
	Tail   []byte   `json:",omitempty"` // after what was packed
}

// pack returns data in a packed form.
func pack(data []byte, how string) []byte {
	var b bytes.Buffer
	var w io.WriteCloser
	switch how {
	case "gzip":
		w = gzip.NewWriter(&b)
	case "gzip stored":
		w, _ = gzip.NewWriterLevel(&b, gzip.NoCompression)
	case "zlib":
		w = zlib.NewWriter(&b)
	case "flate":
		w, _ = flate.NewWriter(&b, 6)
	default:
		return file.CompressData(data)
	}
	w.Write(data)
	w.Close()
	return b.Bytes()
}

type Large struct {
	Bytes int
	Data  []byte
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Large]{Name: "large", Quick: 3, Thorough: 40, Slow: true,
		Gen: func(t *rapid.T) Large {
			return Large{rapid.IntRange(9<<20, 160<<20).Draw(t, "bytes"), rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(t, "data")}
		},
		Check: func(c Large, o *h.Obs) error {
			o.Nontrivial(true)
			data := bytes.Repeat(c.Data, c.Bytes/len(c.Data)+1)
			for i := 0; i < len(data); i += 1000 {
				data[i] = byte(i / 1000)
			}
			back := file.DecompressData(file.CompressData(data))
			if !bytes.Equal(back, data) {
				return fmt.Errorf("%d bytes come back as %d bytes, or others", len(data), len(back))
			}
			return nil
		}})
	h.Run(t, h.Sub[Case]{Name: "records", Quick: 12000, Thorough: 300000, Gen: gen, Check: check})
	h.Run(t, h.Sub[Blob]{Name: "compression", Quick: 16000, Thorough: 300000,
		Gen: func(t *rapid.T) Blob {
			b := Blob{Data: rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "data"), Repeat: 1}
			if rapid.IntRange(0, 5).Draw(t, "big") == 0 {
				b.Repeat = rapid.IntRange(1, 2000).Draw(t, "repeat")
			}
			if rapid.IntRange(0, 5).Draw(t, "random") == 0 {
				b.Random = h.Size(300000).Draw(t, "size")
			}
			if rapid.IntRange(0, 400).Draw(t, "huge") == 0 && len(b.Data) > 0 {
				b.Repeat = 1 + rapid.IntRange(1<<20, 9<<20).Draw(t, "bytes")/len(b.Data)
			}
			if rapid.IntRange(0, 3).Draw(t, "packed") == 0 {
				b.Packed = rapid.SliceOfN(rapid.SampledFrom([]string{"gzip", "gzip stored", "zlib", "flate", "file.CompressData"}), 1, 3).Draw(t, "how")
				b.Tail = rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "tail")
			}
			if rapid.IntRange(0, 5).Draw(t, "head") == 0 {
				b.Head = rapid.SampledFrom([][]byte{{0x1f}, {0x1f, 0x8b}, {0x1f, 0x8b, 8}, {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff}, {0x78, 0x9c}, {0x78, 1}, {0x28, 0xb5, 0x2f, 0xfd}, {4, 0x22, 0x4d, 0x18}, []byte("BZh9"), []byte("PK\x03\x04"), {0}, {1}, {0xff, 0xfe}, {0xef, 0xbb, 0xbf}}).Draw(t, "magic")
			}
			return b
		},
		Check: func(b Blob, o *h.Obs) error {
			data := bytes.Repeat(b.Data, b.Repeat)
			rnd := rand.New(rand.NewPCG(uint64(b.Random), 7))
			for i := 0; i < b.Random; i++ {
				data = append(data, byte(rnd.Uint32()))
			}
			data = append(append([]byte{}, b.Head...), data...)
			for _, how := range b.Packed {
				data = append(pack(data, how), b.Tail...)
			}
			o.Class(len(b.Packed) > 0, "packed already")
			o.Class(len(b.Head) > 0, "begins like another format")
			o.Class(len(data) > 1<<20, "over a megabyte")
			o.Class(b.Random > 65536, "over 64 KiB that do not compress")
			o.Nontrivial(len(data) > 1)
			o.Class(len(data) > 65536, "over 64 KiB")
			o.Class(len(data) == 0, "empty")
			in := append([]byte{}, data...)
			got := file.DecompressData(file.CompressData(in))
			if !bytes.Equal(got, data) {
				return fmt.Errorf("%d bytes read back as %d bytes", len(data), len(got))
			}
			if !bytes.Equal(in, data) {
				return fmt.Errorf("compressing changed its input")
			}
			return nil
		}})
}
