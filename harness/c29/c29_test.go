package c29

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Damage is done to one file.
type Damage struct {
	File int    // which, modulo the number of files
	K    string // flip, cut, zero, append, insert, delete: bytes of the file; empty
	At   int    // position in thousandths of the file
	N    int    // bits or bytes
	B    byte
}

// Case is a history, then damage to the files that it left. Early: the store dies before the index is merged.
type Case struct {
	h.Hist
	Early  bool
	Damage []Damage
	Reads  []string // order of the reads
}

func (d Damage) apply(b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) == 0 {
		return b
	}
	at := d.At * len(b) / 1000
	n := min(d.N, len(b)-at)
	switch d.K {
	case "flip":
		b[at] ^= 1 << (d.N % 8)
	case "cut":
		b = b[:at]
	case "last": // the last few bytes are missing
		b = b[:len(b)-min(d.N, len(b))]
	case "zero":
		for i := at; i < at+n; i++ {
			b[i] = d.B
		}
	case "append":
		b = append(b, bytes.Repeat([]byte{d.B}, d.N)...)
	case "insert":
		b = append(b[:at:at], append(bytes.Repeat([]byte{d.B}, d.N), b[at:]...)...)
	case "delete":
		b = append(b[:at:at], b[at+n:]...)
	case "empty":
		b = nil
	}
	return b
}

// bytes 4..9 of a gzip file (time, flags of the compressor, system) may change without a change of the contents
func harmless(old, changed []byte) bool {
	return len(old) == len(changed) && len(old) > 10 && bytes.Equal(old[:4], changed[:4]) && bytes.Equal(old[10:], changed[10:])
}

func attempt(f func() error) (err error, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			err, failed = nil, true
		}
	}()
	return f(), false
}

func run(t *testing.T, c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	m := h.NewModel()
	err := h.InSession(t, func() error {
		s, err := storage.NewDiskStore(dir, c.Cache)
		if err != nil {
			return err
		}
		for _, op := range c.Ops {
			if op.K == "reopen" {
				continue
			}
			if err := h.Apply(s, m, op); err != nil {
				return err
			}
		}
		if c.Early {
			// everything is flushed, fragments are not merged: 14 s after the last merge
			h.Sleep(h.Settle)
			return nil
		}
		h.Sleep(3 * h.Settle)
		return nil
	})
	if err != nil {
		return fmt.Errorf("before any damage: %w", err)
	}
	tree := h.Tree(dir)
	var files []string
	for _, p := range h.SortedKeys(tree) {
		if !strings.HasSuffix(p, "/") && filepath.Base(p) != file.NameFile {
			files = append(files, p)
		}
	}
	if len(files) == 0 {
		return nil
	}
	hit, real := map[string]bool{}, 0
	var what []string
	for _, d := range c.Damage {
		p := files[d.File%len(files)]
		if hit[p] {
			continue
		}
		hit[p] = true
		changed := d.apply([]byte(tree[p]))
		if bytes.Equal(changed, []byte(tree[p])) {
			continue
		}
		if !harmless([]byte(tree[p]), changed) {
			real++
		}
		what = append(what, fmt.Sprintf("%s %s", d.K, p))
		tree[p] = string(changed)
		if err := os.WriteFile(filepath.Join(dir, p), changed, 0644); err != nil {
			return err
		}
	}
	o.Nontrivial(real > 0)
	opened, noticed, answered := false, 0, 0
	err = h.InSession(t, func() error {
		var s storage.Storage
		var err error
		_, failed := attempt(func() error {
			s, err = storage.NewDiskStore(dir, c.Cache)
			return nil
		})
		if failed || err != nil {
			return nil
		}
		opened = true
		judge := func(f func() error) error {
			err, failed := attempt(f)
			if failed {
				noticed++
				return nil
			}
			answered++
			return err
		}
		for _, f := range h.SortedKeys(m.Size) {
			for _, r := range c.Reads {
				switch r {
				case "docs":
					for _, t := range h.SortedKeys(m.Post[f]) {
						if err := judge(func() error { return m.ComparePostings(s, f, t) }); err != nil {
							return err
						}
					}
				case "df":
					if err := judge(func() error { return m.CompareDF(s, f, h.SortedKeys(m.DF[f])) }); err != nil {
						return err
					}
				case "stats":
					if err := judge(func() error {
						if g := s.GetFieldSize(f); g != m.Size[f] {
							return fmt.Errorf("GetFieldSize(%q) = %d, want %d", f, g, m.Size[f])
						}
						if g := s.GetFieldLength(f); g != m.Length[f] {
							return fmt.Errorf("GetFieldLength(%q) = %d, want %d", f, g, m.Length[f])
						}
						return nil
					}); err != nil {
						return err
					}
				case "fields":
					for _, d := range h.SortedKeys(m.Fields) {
						if err := judge(func() error { return fields(s, m, d, f) }); err != nil {
							return err
						}
					}
				}
			}
		}
		// a further field of a document: the others stay, or the store says that it cannot read them
		for i, d := range h.SortedKeys(m.Fields) {
			if i >= 4 {
				break
			}
			if err := judge(func() error {
				s.SaveOrUpdate(d, h.Save{Doc: d, Field: "a further field", TF: map[string]int{"x": 1}, Len: 1}.F())
				for _, f := range h.SortedKeys(m.Fields[d]) {
					if err := m.CompareFields(s, []string{d}, f); err != nil {
						return fmt.Errorf("after a further field of %q was saved: %w", d, err)
					}
				}
				return nil
			}); err != nil {
				return err
			}
		}
		return nil
	})
	o.Class(real > 0 && !opened, "noticed while opening")
	o.Class(real > 0 && noticed > 0, "noticed by a read")
	o.Class(len(what) > 0 && answered > 0, "opened and answered something")
	if err != nil && !strings.HasPrefix(err.Error(), "the code under test ended") {
		return fmt.Errorf("after damage (%s): %w", strings.Join(what, "; "), err)
	}
	return nil
}

// fields reads one field of one document. A document that cannot be read may be reported absent, but not as another one.
func fields(s storage.Storage, m *h.Model, d, f string) error {
	got := s.GetFields([]string{d}, f)
	for g, v := range got {
		want, ok := m.Fields[g][f]
		if g != d || !ok {
			return fmt.Errorf("GetFields(%q, %q) returned field %q of %q, which was never saved", d, f, v.Name, g)
		}
		if err := h.SameField(v, want); err != nil {
			return fmt.Errorf("GetFields(%q, %q): %w", d, f, err)
		}
	}
	return nil
}

func gen(t *rapid.T) Case {
	c := Case{Hist: h.DrawHist(t, h.Opts{MaxOps: 12, Docs: 4, Fields: 3, NoReads: true, Sleep: true, Bulk: 60}), Early: rapid.Bool().Draw(t, "early")}
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Damage = append(c.Damage, Damage{File: rapid.IntRange(0, 200).Draw(t, "file"),
			K:  rapid.SampledFrom([]string{"flip", "flip", "cut", "last", "zero", "append", "insert", "delete", "empty"}).Draw(t, "kind"),
			At: rapid.IntRange(0, 999).Draw(t, "at"), N: rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 8, 9, 30, 600}).Draw(t, "len"),
			B: rapid.SampledFrom([]byte{0, 1, 0xff, 0x1f, 'a'}).Draw(t, "byte")})
	}
	c.Reads = rapid.Permutation([]string{"docs", "df", "stats", "fields"}).Draw(t, "reads")
	return c
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "damage", Quick: 6000, Thorough: 120000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return run(t, c, o) }})
}
