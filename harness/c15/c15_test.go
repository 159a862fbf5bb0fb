package c15

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Case is a history over placeholder names, and the names they stand for.
type Case struct {
	h.Hist
	Names map[string]h.Str
	Other []h.Str // names that are only asked for
}

var special = []h.Str{"", ".", "..", "...", "/", "//", "\\", "a/b", "a/../b", "../x", "../../x", "../index", "..\\x", "./x", "/etc/passwd", "/tmp/x",
	"docs", "docs/", "docs/metrics", "metrics", "metrics/", "index", "nfterm", "temp", "raw", "temp/x", "index/", "x_temp", "x_old", "x", "_temp", "_old",
	"index_temp", "index_old", "nfterm_temp", "metrics_temp", "x.temp", "x.old", "x.tmp", "x~", ".x", "%", "%%", "%2F", "%2f", "a%2Fb", "a%2fb", "%25", "%2525", "%00",
	"%temp-", "%2E", "%2E%2E", "%2e%2e", "%64%6F%63%73", "%64ocs", "Docs", "DOCS", "\x00", "a\x00b", "a\x00", "\n", "a\nb", "\r", "\t", " ", " a", "a ", "-", "--", "-rf", "~", "$HOME", "*", "?", "|", ":", "con", "nul",
	"\xff", "\xfe\xff", "é", "e\u0301", "日本語", "😀", "\u202e", "\ufeff", "3f2504e0-4f89-41d3-9a0c-0305e82c3301", "null", "nil", "0", "{}", "\"", "'", "`x`", "$(x)", "a_b", "a-b", "a.b", "a,b", "a b", "A", "a", "+", "a+b", "=", "==", "a=", "&", "#"}

func name() *rapid.Generator[h.Str] {
	sp := rapid.SampledFrom(special)
	return rapid.OneOf(sp, sp, rapid.SampledFrom([]h.Str{"docs", "metrics", "index", "nfterm", "temp", "", ".", "..", "%", "../docs"}),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 60), func(b []byte) h.Str { return h.Str(b) }),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{".", "..", "/", "\\", "%", "%2F", "%2E", "a", "b", "_", "temp", "old", "\x00", "index", "docs", "25", "~", " "}), 0, 8),
			func(l []string) h.Str { s := strings.Join(l, ""); return h.Str(s[:min(len(s), 60)]) }),
		rapid.Map(rapid.IntRange(1, 60), func(n int) h.Str { return h.Str(strings.Repeat("/", n)) }),
		rapid.Map(rapid.IntRange(1, 20), func(n int) h.Str { return h.Str(strings.Repeat("../", n)) }),
		rapid.Map(rapid.IntRange(1, 60), func(n int) h.Str { return h.Str(strings.Repeat("x", n)) }),
		// long, up to and beyond what a file name can have, and alike but for the end or the middle
		rapid.Custom(func(t *rapid.T) h.Str {
			unit := rapid.SampledFrom([]string{"x", "x", "ab", "/", "é", "%", "日本語 ", "a/b", "../", "\x00"}).Draw(t, "unit")
			n := rapid.SampledFrom([]int{61, 80, 84, 85, 86, 100, 127, 128, 190, 200, 240, 249, 250, 253, 254, 255, 256, 257, 260, 300, 765, 766, 1000, 4095, 4096, 5000, 66000}).Draw(t, "len")
			s := strings.Repeat(unit, n/len(unit)+1)[:n]
			tail := rapid.SampledFrom([]string{"", "", "a", "b", "/", "%2F"}).Draw(t, "tail")
			if rapid.IntRange(0, 3).Draw(t, "mid") == 0 && n > 200 {
				return h.Str(s[:150] + tail + s[150:])
			}
			return h.Str(s + tail)
		}),
		rapid.Map(rapid.StringMatching(`%%[0-9a-f]{64}`), func(s string) h.Str { return h.Str(s) }),
		// a name and what a careless escaping might turn it into
		rapid.Custom(func(t *rapid.T) h.Str {
			s := string(sp.Draw(t, "base"))
			switch rapid.IntRange(0, 6).Draw(t, "how") {
			case 0:
				s = strings.ReplaceAll(s, "/", "%2F")
			case 1:
				s = strings.ReplaceAll(s, "/", "_")
			case 2:
				s = strings.ReplaceAll(s, "%", "%25")
			case 3:
				s = filepath.Clean(s)
			case 4:
				s = filepath.Base(s)
			case 5:
				s = strings.ToLower(s)
			case 6:
				var b strings.Builder
				for i := 0; i < len(s) && i < 20; i++ {
					fmt.Fprintf(&b, "%%%02X", s[i])
				}
				s = b.String()
			}
			return h.Str(s)
		}),
	)
}

func gen(t *rapid.T) Case {
	c := Case{Hist: h.DrawHist(t, h.Opts{MaxOps: 22, Docs: 6, Fields: 4, Sleep: true, Reopen: true,
		Names: rapid.StringMatching(`n[0-7]`)}), Names: map[string]h.Str{}}
	l := rapid.SliceOfNDistinct(name(), 8, 8, func(s h.Str) h.Str { return s }).Draw(t, "names")
	for i, s := range l {
		c.Names[fmt.Sprintf("n%d", i)] = s
	}
	c.Other = rapid.SliceOfN(name(), 0, 6).Draw(t, "other")
	return c
}

func (c Case) hist() h.Hist {
	to := func(s string) string {
		if n, ok := c.Names[s]; ok {
			return string(n)
		}
		return s
	}
	out := h.Hist{Cache: c.Cache}
	for _, op := range c.Ops {
		op.Field = to(op.Field)
		op.Docs = append([]string{}, op.Docs...)
		for i := range op.Docs {
			op.Docs[i] = to(op.Docs[i])
		}
		if op.Save != nil {
			s := *op.Save
			s.Doc, s.Field = to(s.Doc), to(s.Field)
			op.Save = &s
		}
		out.Ops = append(out.Ops, op)
	}
	return out
}

var errOutside = errors.New("outside the root folder")

func check(t *testing.T, c Case, o *h.Obs) error {
	base := h.Scratch()
	defer os.RemoveAll(base)
	root := filepath.Join(base, "a", "b", "c", "root")
	// neighbours that a name could reach
	h.Plant(filepath.Join(base, "a"), map[string]string{"x": "1", "index": "2", "b/x": "3", "b/c/x": "4", "b/c/docs": "5", "b/c/index": "6", "b/c/root2/x": "7"})
	os.MkdirAll(root, 0o755)
	before := h.Tree(base)
	var mu sync.Mutex
	var escaped error
	stop := h.Watch(func(op h.FileOp) error {
		if op.Op == "write" && (op.Path == os.DevNull || op.Path == "/dev/stdout" || op.Path == "/dev/stderr") {
			return nil // what it prints
		}
		for _, p := range []string{op.Path, op.Path2} {
			if p != "" && !h.Below(root, p) {
				mu.Lock()
				if escaped == nil {
					escaped = fmt.Errorf("file operation outside the root folder: %v", op)
				}
				mu.Unlock()
				return errOutside
			}
		}
		return nil
	})
	hist := c.hist()
	m := h.NewModel()
	others := func(s storage.Storage) error {
		for _, n := range append(c.Other, special...) {
			if _, ok := m.Fields[string(n)]; !ok {
				for f := range m.Size {
					if g := s.GetFields([]string{string(n)}, f); len(g) != 0 {
						return fmt.Errorf("document %q, never saved, has field %q", n, f)
					}
					break
				}
			}
			if m.Size[string(n)] == 0 {
				if g := s.GetFieldSize(string(n)); g != 0 {
					return fmt.Errorf("field %q, never saved, has size %d", n, g)
				}
				if g := s.GetIndex(string(n)); len(g) != 0 {
					return fmt.Errorf("field %q, never saved, has an index", n)
				}
			}
		}
		return nil
	}
	fail := func(err error) error {
		mu.Lock()
		defer mu.Unlock()
		if escaped != nil {
			return escaped
		}
		return err
	}
	i, cache := 0, hist.Cache
	lives := 0
	for done := false; !done; {
		err := h.InSession(t, func() error {
			s, err := storage.NewDiskStore(root, cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if err := m.Compare(s); err != nil {
				return fmt.Errorf("after opening: %w", err)
			}
			if err := others(s); err != nil {
				return fmt.Errorf("after opening: %w", err)
			}
			if lives > 0 && i >= len(hist.Ops) {
				done = true
				return nil
			}
			lives++
			for ; i < len(hist.Ops); i++ {
				op := hist.Ops[i]
				if op.K == "reopen" {
					cache = op.Cache
					i++
					break
				}
				if err := h.Apply(s, m, op); err != nil {
					return fmt.Errorf("op %d (%s): %w", i, op.K, err)
				}
			}
			if err := others(s); err != nil {
				return err
			}
			h.Sleep(h.Settle)
			return m.Compare(s)
		})
		if err = fail(err); err != nil {
			stop()
			return err
		}
	}
	stop()
	if escaped != nil {
		return escaped
	}
	os.RemoveAll(root)
	os.MkdirAll(root, 0o755)
	if after := h.Tree(base); !reflect.DeepEqual(before, after) {
		return fmt.Errorf("something outside the root folder has changed")
	}
	odd := false
	for _, op := range hist.Ops {
		for _, s := range op.Saves() {
			for _, n := range []string{s.Doc, s.Field} {
				odd = odd || strings.ContainsAny(n, "/\\%\x00.\n") || n == "" || n == "docs"
				o.Class(strings.Contains(n, ".."), "name with ..")
				o.Class(strings.Contains(n, "/"), "name with a slash")
				o.Class(strings.Contains(n, "%"), "name with a percent sign")
				o.Class(n == "", "empty name")
				o.Class(len(n) > 255, "name longer than a file name can be")
			}
			o.Class(s.Field == "docs", "field docs")
		}
	}
	o.Nontrivial(odd && lives > 0)
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "names", Quick: 2400, Thorough: 60000, Gen: gen,
		Check: func(c Case, o *h.Obs) error { return check(t, c, o) }})
}
