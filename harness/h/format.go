package h

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	flatbuffers "github.com/google/flatbuffers/go"
)

// This file knows the format of a store's folder by itself, from /repo/schema and the layout: nothing of /repo is used.

// FileName is the name that a folder or file has for a text.
func FileName(text string) string {
	switch text {
	case "":
		return "%"
	case ".":
		return "%2E"
	case "..":
		return "%2E%2E"
	}
	n := strings.NewReplacer("%", "%25", "/", "%2F", "\x00", "%00").Replace(text)
	if len(n) > 255 {
		return fmt.Sprintf("%%%%%x", sha256.Sum256([]byte(text)))
	}
	return n
}

// FieldFolder is the folder of a field.
func FieldFolder(field string) string {
	if field == "docs" {
		return "%64%6F%63%73"
	}
	return FileName(field)
}

// Format says how a folder is written, within what the format leaves open.
type Format struct {
	Seed      uint64
	Level     int   // of compression
	Total     bool  // metrics with the length of 64 bits
	Share     bool  // equal texts of a file are stored once
	Zeros     bool  // zeros are written out
	Sized     []int // how the postings are split: into the merged index and so many fragments (by field in turn)
	NoFolders bool  // no folder for fragments that are not there
}

type enc struct {
	*flatbuffers.Builder
	f Format
}

func (f Format) builder() enc {
	b := flatbuffers.NewBuilder(0)
	return enc{b, f}
}

func (b enc) text(s string) flatbuffers.UOffsetT {
	if b.f.Share {
		return b.CreateSharedString(s)
	}
	return b.CreateString(s)
}

func (b enc) vector(l []flatbuffers.UOffsetT) flatbuffers.UOffsetT {
	b.StartVector(4, len(l), 4)
	for i := len(l) - 1; i >= 0; i-- {
		b.PrependUOffsetT(l[i])
	}
	return b.EndVector(len(l))
}

func (b enc) table(slots ...any) flatbuffers.UOffsetT {
	b.StartObject(len(slots))
	for i, s := range slots {
		switch v := s.(type) {
		case flatbuffers.UOffsetT:
			b.PrependUOffsetTSlot(i, v, 0)
		case int32:
			if v != 0 || b.f.Zeros {
				b.PrependInt32(v)
				b.Slot(i)
			}
		case int64:
			if v != 0 || b.f.Zeros {
				b.PrependInt64(v)
				b.Slot(i)
			}
		}
	}
	return b.EndObject()
}

func shuffled[V any](r *rand.Rand, m map[string]V) []string {
	l := SortedKeys(m)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (f Format) counts(b enc, r *rand.Rand, m map[string]int) flatbuffers.UOffsetT {
	var l []flatbuffers.UOffsetT
	for _, k := range shuffled(r, m) {
		t := b.text(k)
		l = append(l, b.table(t, int32(m[k])))
	}
	return b.vector(l)
}

func (f Format) index(r *rand.Rand, post map[string]map[string]bool) []byte {
	b := f.builder()
	var terms []flatbuffers.UOffsetT
	for _, t := range shuffled(r, post) {
		key := b.text(t)
		var docs []flatbuffers.UOffsetT
		for _, d := range shuffled(r, post[t]) {
			docs = append(docs, b.text(d))
		}
		v := b.vector(docs)
		v = b.table(v)
		terms = append(terms, b.table(key, v))
	}
	v := b.vector(terms)
	b.Finish(b.table(v))
	return b.FinishedBytes()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (f Format) save(path string, data []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, f.Zip(data), 0o644))
}

// Zip compresses.
func (f Format) Zip(data []byte) []byte {
	var buf bytes.Buffer
	w, err := gzip.NewWriterLevel(&buf, f.Level)
	must(err)
	_, err = w.Write(data)
	must(err)
	must(w.Close())
	return buf.Bytes()
}

// WriteStore writes a folder that holds the record.
func (f Format) WriteStore(dir string, m *Model) {
	r := rand.New(rand.NewPCG(f.Seed, 30))
	for n, field := range SortedKeys(m.Size) {
		at := filepath.Join(dir, FieldFolder(field))
		must(os.MkdirAll(at, 0o755))
		if strings.HasPrefix(filepath.Base(at), "%%") {
			must(os.WriteFile(filepath.Join(at, "name"), []byte(field), 0o644))
		}
		b := f.builder()
		name := b.text(field)
		length := m.Length[field]
		if f.Total || length != int(int32(length)) {
			b.Finish(b.table(name, int32(m.Size[field]), int32(length), int64(length)))
		} else {
			b.Finish(b.table(name, int32(m.Size[field]), int32(length)))
		}
		f.save(filepath.Join(at, "metrics"), b.FinishedBytes())
		if len(m.DF[field]) > 0 {
			b = f.builder()
			v := f.counts(b, r, m.DF[field])
			b.Finish(b.table(v))
			f.save(filepath.Join(at, "nfterm"), b.FinishedBytes())
		}
		// the postings
		k := f.Sized[n%len(f.Sized)]
		parts := make([]map[string]map[string]bool, k+1)
		for i := range parts {
			parts[i] = map[string]map[string]bool{}
		}
		put := func(i int, t, d string) {
			if parts[i][t] == nil {
				parts[i][t] = map[string]bool{}
			}
			parts[i][t][d] = true
		}
		merged := r.IntN(4) > 0 || k == 0 // is there a merged index?
		for _, t := range SortedKeys(m.Post[field]) {
			for _, d := range SortedKeys(m.Post[field][t]) {
				i := r.IntN(k + 1)
				if i == 0 && !merged {
					i = 1
				}
				put(i, t, d)
				if r.IntN(5) == 0 && k > 0 {
					put(1+r.IntN(k), t, d) // a fragment may repeat what is there
				}
			}
		}
		if merged {
			f.save(filepath.Join(at, "index"), f.index(r, parts[0]))
		}
		if k > 0 || !f.NoFolders {
			must(os.MkdirAll(filepath.Join(at, "temp"), 0o755))
		}
		for i := 1; i <= k; i++ {
			f.save(filepath.Join(at, "temp", fmt.Sprintf("%08x-%04x-4%03x-8%03x-%012x", r.Uint32(), r.IntN(1<<16), r.IntN(1<<12), r.IntN(1<<12), r.Uint64N(1<<48))), f.index(r, parts[i]))
		}
	}
	for _, id := range SortedKeys(m.Fields) {
		b := f.builder()
		var entries []flatbuffers.UOffsetT
		for _, field := range shuffled(r, m.Fields[id]) {
			s := m.Fields[id][field]
			key, name := b.text(field), b.text(s.Field)
			tf := f.counts(b, r, s.TF)
			v := b.table(name, int32(s.Len), tf)
			entries = append(entries, b.table(key, v))
		}
		v := b.vector(entries)
		b.Finish(b.table(v))
		f.save(filepath.Join(dir, "docs", "metrics", FileName(id)), b.FinishedBytes())
	}
}

// tab is a table of a file.
type tab struct{ flatbuffers.Table }

func (t tab) text(slot int) string {
	if o := t.Offset(flatbuffers.VOffsetT(4 + 2*slot)); o != 0 {
		return string(t.ByteVector(t.Pos + flatbuffers.UOffsetT(o)))
	}
	return ""
}

func (t tab) i32(slot int) int {
	return int(t.GetInt32Slot(flatbuffers.VOffsetT(4+2*slot), 0))
}

func (t tab) i64(slot int) int {
	return int(t.GetInt64Slot(flatbuffers.VOffsetT(4+2*slot), 0))
}

func (t tab) table(slot int) tab {
	o := t.Offset(flatbuffers.VOffsetT(4 + 2*slot))
	if o == 0 {
		panic(fmt.Sprintf("table %d is missing", slot))
	}
	return tab{flatbuffers.Table{Bytes: t.Bytes, Pos: t.Indirect(t.Pos + flatbuffers.UOffsetT(o))}}
}

func (t tab) vector(slot int) (start flatbuffers.UOffsetT, n int) {
	o := flatbuffers.UOffsetT(t.Offset(flatbuffers.VOffsetT(4 + 2*slot)))
	if o == 0 {
		return 0, 0
	}
	return t.Vector(o), t.VectorLen(o)
}

func (t tab) tables(slot int) (l []tab) {
	at, n := t.vector(slot)
	for i := 0; i < n; i++ {
		l = append(l, tab{flatbuffers.Table{Bytes: t.Bytes, Pos: t.Indirect(at + flatbuffers.UOffsetT(4*i))}})
	}
	return
}

func (t tab) texts(slot int) (l []string) {
	at, n := t.vector(slot)
	for i := 0; i < n; i++ {
		l = append(l, string(t.ByteVector(at+flatbuffers.UOffsetT(4*i))))
	}
	return
}

func (t tab) counts(slot int) (map[string]int, error) {
	m := map[string]int{}
	for _, e := range t.tables(slot) {
		if _, ok := m[e.text(0)]; ok {
			return nil, fmt.Errorf("%q is listed twice", e.text(0))
		}
		m[e.text(0)] = e.i32(1)
	}
	return m, nil
}

func readTable(path string) (t tab, err error) {
	f, err := os.Open(path)
	if err != nil {
		return t, err
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return t, fmt.Errorf("%s: %w", path, err)
	}
	data, err := io.ReadAll(z)
	if err != nil {
		return t, fmt.Errorf("%s: %w", path, err)
	}
	return tab{flatbuffers.Table{Bytes: data, Pos: flatbuffers.GetUOffsetT(data)}}, nil
}

// ReadStore reads a folder by the format and compares it with the record.
func ReadStore(dir string, m *Model) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("a file does not follow the format: %v", r)
		}
	}()
	known := map[string]bool{"docs": true}
	for _, field := range SortedKeys(m.Size) {
		known[FieldFolder(field)] = true
		if err := readField(filepath.Join(dir, FieldFolder(field)), field, m); err != nil {
			return fmt.Errorf("field %q: %w", field, err)
		}
	}
	folders, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range folders {
		if e.IsDir() && !known[e.Name()] {
			return fmt.Errorf("there is a folder %q, which no field has", e.Name())
		}
	}
	names := map[string]bool{}
	for _, id := range SortedKeys(m.Fields) {
		names[FileName(id)] = true
		t, err := readTable(filepath.Join(dir, "docs", "metrics", FileName(id)))
		if err != nil {
			return err
		}
		seen := map[string]bool{}
		for _, e := range t.tables(0) {
			key, v := e.text(0), e.table(1)
			want, ok := m.Fields[id][key]
			if !ok || seen[key] {
				return fmt.Errorf("document %q has a field %q, or has it twice", id, key)
			}
			seen[key] = true
			if v.text(0) != want.Field || v.i32(1) != want.Len {
				return fmt.Errorf("document %q: field %q has the name %q and length %d, want %d", id, key, v.text(0), v.i32(1), want.Len)
			}
			tf, err := v.counts(2)
			if err == nil {
				err = sameCounts(tf, want.TF)
			}
			if err != nil {
				return fmt.Errorf("document %q, field %q: %w", id, key, err)
			}
		}
		if len(seen) != len(m.Fields[id]) {
			return fmt.Errorf("document %q has %d fields, want %d", id, len(seen), len(m.Fields[id]))
		}
	}
	files, err := os.ReadDir(filepath.Join(dir, "docs", "metrics"))
	if err != nil && len(m.Fields) > 0 {
		return err
	}
	for _, e := range files {
		if !names[e.Name()] {
			return fmt.Errorf("there is a file %q, which no document has", e.Name())
		}
	}
	return nil
}

func readField(at, field string, m *Model) error {
	if strings.HasPrefix(filepath.Base(at), "%%") {
		name, err := os.ReadFile(filepath.Join(at, "name"))
		if err != nil || string(name) != field {
			return fmt.Errorf("the folder's field is %q (%v)", name, err)
		}
	}
	t, err := readTable(filepath.Join(at, "metrics"))
	if err != nil {
		return err
	}
	length, total := t.i32(2), t.i64(3)
	if total == 0 {
		total = length
	}
	want := m.Length[field]
	if t.text(0) != field || t.i32(1) != m.Size[field] || total != want || want <= math.MaxInt32 && length != want {
		return fmt.Errorf("metrics name %q size %d length %d total %d, want %d and %d", t.text(0), t.i32(1), length, total, m.Size[field], want)
	}
	got := map[string]int{}
	if len(m.DF[field]) > 0 {
		t, err := readTable(filepath.Join(at, "nfterm"))
		if err != nil {
			return err
		}
		if got, err = t.counts(0); err != nil {
			return err
		}
	}
	if err := sameCounts(got, m.DF[field]); err != nil {
		return fmt.Errorf("document counts: %w", err)
	}
	post := map[string]map[string]bool{}
	files := []string{filepath.Join(at, "index")}
	fragments, _ := os.ReadDir(filepath.Join(at, "temp"))
	for _, e := range fragments {
		files = append(files, filepath.Join(at, "temp", e.Name()))
	}
	for i, path := range files {
		t, err := readTable(path)
		if os.IsNotExist(err) && i == 0 {
			continue
		}
		if err != nil {
			return err
		}
		for _, e := range t.tables(0) {
			term := e.text(0)
			if post[term] == nil {
				post[term] = map[string]bool{}
			}
			for _, d := range e.table(1).texts(0) {
				post[term][d] = true
			}
		}
	}
	for term, docs := range m.Post[field] {
		if err := sameSet(post[term], docs); err != nil {
			return fmt.Errorf("term %q: %w", term, err)
		}
	}
	if len(post) != len(m.Post[field]) {
		return fmt.Errorf("postings of %d terms, want %d", len(post), len(m.Post[field]))
	}
	return nil
}
