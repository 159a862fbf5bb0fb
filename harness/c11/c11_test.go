package c11

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Case struct{ Doc json.RawMessage }

func value(depth int) *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		k := rapid.IntRange(0, 11).Draw(t, "kind")
		if depth > 0 && k >= 7 {
			if k < 10 {
				return object(depth-1, 4).Draw(t, "object")
			}
			return rapid.SliceOfN(value(depth-1), 0, 3).Draw(t, "array")
		}
		switch k % 7 {
		case 0:
			return nil
		case 1:
			return rapid.Bool().Draw(t, "bool")
		case 2:
			return rapid.Float64Range(-1e12, 1e12).Draw(t, "number")
		case 3:
			return rapid.IntRange(-5, 5).Draw(t, "int")
		default:
			return rapid.OneOf(rapid.StringMatching(`[a-zA-Z .]{0,12}`), rapid.String()).Draw(t, "string")
		}
	})
}

func key() *rapid.Generator[string] {
	return rapid.OneOf(rapid.StringMatching(`[a-c]{1,2}`), rapid.StringMatching(`[a-c]{1,2}`), rapid.SampledFrom([]string{"Id", "id", "", "a.b", ".", "a.", "é", "Name", "b c", "Id.x"}), rapid.String())
}

func object(depth, n int) *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		m := map[string]any{}
		for i, k := 0, rapid.IntRange(0, n).Draw(t, "members"); i < k; i++ {
			m[key().Draw(t, "key")] = value(depth).Draw(t, "value")
		}
		return m
	})
}

type leaf struct {
	path string
	v    any
}

// leaves lists the leaves by path, with a work list instead of recursion.
func leaves(root map[string]any) (out []leaf, depth int) {
	type node struct {
		path []string
		m    map[string]any
	}
	work := []node{{nil, root}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for k, v := range n.m {
			path := append(append([]string{}, n.path...), k)
			if m, ok := v.(map[string]any); ok {
				depth = max(depth, len(path))
				work = append(work, node{path, m})
				continue
			}
			var b bytes.Buffer
			for i, p := range path {
				if i > 0 {
					b.WriteByte('.')
				}
				b.WriteString(p)
			}
			out = append(out, leaf{b.String(), v})
		}
	}
	return
}

func check(c Case, o *h.Obs) error {
	var ref map[string]any
	if err := json.Unmarshal(c.Doc, &ref); err != nil {
		return nil
	}
	in := field.StringToObject(string(c.Doc))
	if !reflect.DeepEqual(in, ref) {
		return fmt.Errorf("parsed as %v, want %v", in, ref)
	}
	want, depth := leaves(ref)
	o.Nontrivial(depth > 0 && len(want) > 1)
	o.Class(depth > 1, "nested twice")
	paths := map[string]bool{}
	for _, l := range want {
		if paths[l.path] {
			o.Class(true, "two leaves with one path (not judged)")
			return nil
		}
		paths[l.path] = true
	}
	got := field.Flatten(in)
	if !reflect.DeepEqual(in, ref) {
		return fmt.Errorf("flattening changed its input to %v, was %v", in, ref)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d entries %.300q, want %d", len(got), fmt.Sprint(got), len(want))
	}
	for _, l := range want {
		v, ok := got[l.path]
		if !ok || !reflect.DeepEqual(v, l.v) {
			return fmt.Errorf("under %q: %v (present %v), want %v", l.path, v, ok, l.v)
		}
	}
	// the id: judged where it is a text or absent
	for _, m := range []map[string]any{in, got} {
		v, has := m["Id"]
		s, isText := v.(string)
		if !has && paths["Id"] {
			continue
		}
		if has && !isText {
			continue
		}
		o.Class(has, "with an id")
		if g := field.GetID(m); g != s {
			return fmt.Errorf("id %q, want %q", g, s)
		}
	}
	// pairs of values stay apart from the input: changing the output leaves the input alone
	for k := range got {
		delete(got, k)
	}
	if !reflect.DeepEqual(in, ref) {
		return fmt.Errorf("emptying the output changed the input")
	}
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "flatten", Quick: 40000, Thorough: 800000,
		Fixed: []Case{{json.RawMessage(`{"":{"a":1},"a":2}`)}, {json.RawMessage(`{"":{"":{"":1}}}`)}},
		Gen: func(t *rapid.T) Case {
			m := object(3, 5).Draw(t, "doc").(map[string]any)
			if rapid.Bool().Draw(t, "withid") {
				m["Id"] = rapid.OneOf(rapid.StringMatching(`[a-z0-9-]{0,10}`), rapid.SampledFrom([]string{"%s", "%d%%", "100%", "{}", "nil"}), rapid.String()).Draw(t, "id")
			}
			switch rapid.IntRange(0, 19).Draw(t, "shape") {
			case 0: // deep
				n := h.Size(200).Draw(t, "levels")
				if rapid.IntRange(0, 15).Draw(t, "deeper") == 0 {
					n = h.Size(1500).Draw(t, "more levels")
				}
				for i := n; i > 0; i-- {
					m = map[string]any{rapid.SampledFrom([]string{"a", "b", "", "Id"}).Draw(t, "key"): m, "side": i}
				}
			case 1: // wide, at some level
				w := map[string]any{}
				for i := h.Size(1500).Draw(t, "width"); i > 0; i-- {
					w[fmt.Sprint("w", i)] = i
				}
				if rapid.Bool().Draw(t, "inner") {
					m["wide"] = w
				} else {
					w["m"] = m
					m = w
				}
			}
			b, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			return Case{b}
		}, Check: check})
}
