package c19

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// content is a byte string drawn by its kind, seed and length.
type Content struct {
	Seed byte
	Len  int
	Flip int `json:",omitempty"` // the byte, from 1, that is another one; 0: none
}

func (c Content) bytes() []byte {
	b := make([]byte, c.Len)
	for i := range b {
		b[i] = byte(i)*7 + c.Seed + byte(i>>8)
	}
	if c.Flip > 0 && c.Flip <= len(b) {
		b[c.Flip-1] ^= 0x55
	}
	return b
}

type Save struct {
	File int
	New  Content
	Fail int // the file operation (from 1) that fails; 0: none
}

type Case struct {
	Names []string
	Old   []*Content // initial contents; nil: absent
	Other []string   // further files of the folder
	Saves []Save
}

var errInjected = errors.New("injected fault")

func read(p string) ([]byte, bool) {
	b, err := os.ReadFile(p)
	return b, err == nil
}

func oneStep(c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	cur := map[string][]byte{}
	for i, n := range c.Names {
		if c.Old[i] != nil {
			cur[n] = c.Old[i].bytes()
			os.WriteFile(filepath.Join(dir, n), cur[n], 0o644)
		}
	}
	for i, n := range c.Other {
		if !slices.Contains(c.Names, n) {
			os.WriteFile(filepath.Join(dir, n), []byte(fmt.Sprintf("other %d", i)), 0o644)
		}
	}
	debris := false
	for k, s := range c.Saves {
		name := c.Names[s.File]
		path := filepath.Join(dir, name)
		oldC, had := cur[name]
		newC := s.New.bytes()
		before := h.Tree(dir)
		n, points := 0, 0
		var bad error
		judge := func(got []byte, has bool, where string) {
			points++
			if bad != nil {
				return
			}
			switch {
			case !has && had:
				bad = fmt.Errorf("save %d: the file is absent %s", k, where)
			case has && !bytes.Equal(got, newC) && !(had && bytes.Equal(got, oldC)):
				bad = fmt.Errorf("save %d: the file holds neither its old nor its new contents %s (%d bytes, old %d, new %d)", k, where, len(got), len(oldC), len(newC))
			}
		}
		stop := h.Watch(func(op h.FileOp) error {
			n++
			got, has := read(path)
			judge(got, has, fmt.Sprintf("before file operation %d (%s)", n, op.Op))
			if op.Op == "write" && filepath.Clean(op.Path) == path {
				judge(append(append([]byte{}, got...), op.Data[:len(op.Data)/2]...), true, "in the middle of a write")
			}
			if n == s.Fail {
				return errInjected
			}
			return nil
		})
		err := file.SecureSaveFile(dir, name, newC)
		stop()
		got, has := read(path)
		judge(got, has, "after the save returned")
		if bad != nil {
			return bad
		}
		o.Evals(points)
		faulty := s.Fail > 0 && s.Fail <= n
		if err != nil && !faulty {
			return fmt.Errorf("save %d: %w", k, err)
		}
		if err == nil && !(has && bytes.Equal(got, newC)) {
			return fmt.Errorf("save %d returned, but the file does not hold the new contents", k)
		}
		after := h.Tree(dir)
		if err != nil {
			o.Class(true, "a file operation fails")
			debris = true
		}
		delete(before, name)
		for p, v := range before {
			if a, ok := after[p]; !ok || a != v {
				return fmt.Errorf("save %d: file %q has changed", k, p)
			}
		}
		if err == nil && !faulty {
			for p := range after {
				if _, ok := before[p]; !ok && p != name {
					return fmt.Errorf("save %d: helper file %q remains", k, p)
				}
			}
		}
		delete(cur, name)
		if has {
			cur[name] = got
		}
		o.Nontrivial(had && !bytes.Equal(oldC, newC))
		o.Class(!had, "the file is new")
		o.Class(len(newC) == 0, "empty contents")
	}
	o.Class(debris, "saves after a failed save")
	return nil
}

var names = []string{"index", "metrics", "nfterm", "x", "x_temp", "x_old", "x.temp", "index_temp", "index_old", "metrics_temp", "metrics_old", "x_temp_temp", "x_temp_old", "%temp", "%temp-", "x.tmp", "x~", ".x", "..x", "temp", "old", "日本", "a b", "-x", "_temp", "_old", "%temp-3f2504e0-4f89-41d3-9a0c-0305e82c3301"}

func content(t *rapid.T) Content {
	c := Content{Seed: rapid.Byte().Draw(t, "seed"), Len: rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 5000), rapid.IntRange(60000, 200000)).Draw(t, "len")}
	if rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
		c.Len = rapid.OneOf(rapid.IntRange(1<<20, 5<<20), rapid.IntRange(5<<20, 40<<20)).Draw(t, "hugelen")
	}
	return c
}

func gen(t *rapid.T) Case {
	name := rapid.OneOf(rapid.SampledFrom(names), rapid.SampledFrom(names), rapid.StringMatching(`[a-z_%.]{3,20}(_temp|_old)?`), rapid.StringMatching(`[a-z]{200}`))
	c := Case{Names: h.Distinct(t, name, 1, 3, "names")}
	for range c.Names {
		if rapid.IntRange(0, 3).Draw(t, "absent") == 0 {
			c.Old = append(c.Old, nil)
		} else {
			x := content(t)
			c.Old = append(c.Old, &x)
		}
	}
	c.Other = h.Distinct(t, rapid.OneOf(name, rapid.Custom(func(t *rapid.T) string {
		return rapid.SampledFrom(c.Names).Draw(t, "of") + rapid.SampledFrom([]string{"_temp", "_old", ".temp", ".old", "~", ".bak", ".tmp", "_new", "_temp_old"}).Draw(t, "suffix")
	})), 0, 6, "other")
	last := append([]*Content{}, c.Old...)
	for i := rapid.IntRange(1, 5).Draw(t, "saves"); i > 0; i-- {
		s := Save{File: rapid.IntRange(0, len(c.Names)-1).Draw(t, "file"), New: content(t)}
		if l := last[s.File]; l != nil && l.Len > 0 {
			switch rapid.IntRange(0, 5).Draw(t, "like") {
			case 0, 1: // the same but for one byte
				s.New = *l
				s.New.Flip = rapid.OneOf(rapid.IntRange(1, l.Len), rapid.IntRange(max(1, l.Len-8), l.Len)).Draw(t, "flip")
			case 2: // shorter or longer
				s.New = *l
				s.New.Len = max(0, s.New.Len+rapid.SampledFrom([]int{-1, 1, -8, 8, -1000, 1000, -l.Len / 2, l.Len}).Draw(t, "more"))
			case 3: // the same
				s.New = *l
			}
		}
		last[s.File] = &s.New
		if rapid.IntRange(0, 3).Draw(t, "faulty") == 0 {
			s.Fail = rapid.IntRange(1, 5).Draw(t, "fail")
		}
		c.Saves = append(c.Saves, s)
	}
	return c
}

// ---- concurrent savers and readers

type Conc struct {
	Same    bool // all savers replace the same file
	Savers  int
	Readers int
	Rounds  int
	Len     int
}

// version is a content that names itself.
func version(saver, round, n int) []byte {
	head := []byte(fmt.Sprintf("%d/%d/", saver, round))
	b := append(head, bytes.Repeat([]byte{byte(saver*31 + round)}, n)...)
	f := fnv.New64a()
	f.Write(b)
	return f.Sum(b)
}

func whole(b []byte) bool {
	if len(b) < 8 {
		return false
	}
	f := fnv.New64a()
	f.Write(b[:len(b)-8])
	return bytes.Equal(f.Sum(nil), b[len(b)-8:])
}

func concurrent(c Conc, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	name := func(s int) string {
		if c.Same {
			return "index"
		}
		return fmt.Sprintf("index%d", s)
	}
	for s := 0; s < c.Savers; s++ {
		os.WriteFile(filepath.Join(dir, name(s)), version(99, 0, c.Len), 0o644)
	}
	var wg sync.WaitGroup
	var done atomic.Bool
	errs := make(chan error, 100)
	fail := func(err error) {
		select {
		case errs <- err:
		default:
		}
	}
	var readers sync.WaitGroup
	for r := 0; r < c.Readers; r++ {
		readers.Add(1)
		go func() {
			defer readers.Done()
			for !done.Load() {
				b, err := os.ReadFile(filepath.Join(dir, name(r%c.Savers)))
				if err != nil {
					fail(fmt.Errorf("a reader found no file: %w", err))
					return
				}
				if !whole(b) {
					fail(fmt.Errorf("a reader saw an incomplete version of %d bytes", len(b)))
					return
				}
			}
		}()
	}
	for s := 0; s < c.Savers; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < c.Rounds; r++ {
				if err := file.SecureSaveFile(dir, name(s), version(s, r, c.Len+r%7*c.Len)); err != nil {
					fail(fmt.Errorf("saver %d: %w", s, err))
					return
				}
			}
		}()
	}
	wg.Wait()
	done.Store(true)
	readers.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	tree := h.Tree(dir)
	want := map[string]bool{"./": true}
	for s := 0; s < c.Savers; s++ {
		want[name(s)] = true
		b := tree[name(s)]
		ok := false
		for t := 0; t < c.Savers; t++ {
			ok = ok || ((c.Same || s == t) && b == string(version(t, c.Rounds-1, c.Len+(c.Rounds-1)%7*c.Len)))
		}
		if !ok {
			return fmt.Errorf("%s does not hold a last version", name(s))
		}
	}
	got := map[string]bool{}
	for p := range tree {
		got[p] = true
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("files after all saves: %v, want %v", h.SortedKeys(got), h.SortedKeys(want))
	}
	o.Nontrivial(c.Savers > 1)
	o.Class(c.Same, "same file")
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "onestep", Quick: 4000, Thorough: 100000, Gen: gen, Check: oneStep})
	h.Run(t, h.Sub[Conc]{Name: "concurrent", Quick: 600, Thorough: 20000,
		Gen: func(t *rapid.T) Conc {
			return Conc{rapid.Bool().Draw(t, "same"), rapid.IntRange(1, 5).Draw(t, "savers"), rapid.IntRange(1, 4).Draw(t, "readers"),
				rapid.IntRange(1, 30).Draw(t, "rounds"), rapid.SampledFrom([]int{0, 10, 5000, 100000}).Draw(t, "len")}
		}, Check: concurrent})
}
