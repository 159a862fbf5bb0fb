package h

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string that keeps its bytes through JSON even if they are not UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "hex:") {
		return json.Marshal(string(s))
	}
	return json.Marshal(fmt.Sprintf("hex:%x", string(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "hex:") {
		var raw []byte
		if _, err := fmt.Sscanf(v, "hex:%x", &raw); err != nil && len(v) > 4 {
			return err
		}
		v = string(raw)
	}
	*s = Str(v)
	return nil
}

// Strs converts.
func Strs(l []Str) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = string(s)
	}
	return out
}

// AnyStr draws strings of every kind: words, arbitrary runes, arbitrary bytes, empty, long.
func AnyStr() *rapid.Generator[Str] {
	return rapid.OneOf(
		rapid.Map(rapid.StringMatching(`[a-e]{1,3}`), func(s string) Str { return Str(s) }),
		rapid.Map(rapid.String(), func(s string) Str { return Str(s) }),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 12), func(b []byte) Str { return Str(b) }),
		rapid.SampledFrom([]Str{"", "\x00", "a\x00b", "ﬁ", "e\u0301", "\xff", "日本語", "😀"}),
		rapid.Custom(func(t *rapid.T) Str {
			return Str(strings.Repeat(rapid.StringMatching(`[a-zé]{1,3}`).Draw(t, "unit"), rapid.IntRange(30, 3000).Draw(t, "times")))
		}),
	)
}
