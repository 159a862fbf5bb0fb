package c09

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/porter2"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func same(what string, got, want []string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d words %.300q, want %d %.300q", what, len(got), got, len(want), want)
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("%s: word %d is %q, want %q", what, i, got[i], want[i])
		}
	}
	return nil
}

func each(ws []string, f func(string) string) []string {
	out := make([]string, len(ws))
	for i, w := range ws {
		out[i] = f(w)
	}
	return out
}

func clone(ws []string) []string { return append([]string{}, ws...) }

type Text struct {
	T      h.Str
	Times  int // once more, so many times
	Blanks int // and so many blanks
}

type Words struct {
	W      []h.Str
	Stop   []h.Str
	Copies int
}

// refused reports whether f panics.
func refused(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

// The published examples of the Porter2 stemmer that the chain relies on.
var stems = map[string]string{
	"caresses": "caress", "flies": "fli", "dies": "die", "mules": "mule", "denied": "deni", "died": "die", "agreed": "agre",
	"owned": "own", "humbled": "humbl", "sized": "size", "meeting": "meet", "stating": "state", "siezing": "siez",
	"itemization": "item", "sensational": "sensat", "traditional": "tradit", "reference": "refer", "colonizer": "colon",
	"plotted": "plot", "consistently": "consist", "knightly": "knight", "generously": "generous", "running": "run",
	"houses": "hous", "galaxies": "galaxi", "skis": "ski", "dying": "die", "news": "news", "early": "earli", "dog's": "dog",
}

func stages(c Words, o *h.Obs) error {
	var ws []string
	for i := 0; i <= c.Copies; i++ {
		ws = append(ws, h.Strs(c.W)...)
	}
	distinct := map[string]bool{}
	for _, w := range ws {
		distinct[w] = true
	}
	o.Nontrivial(len(distinct) > 1)
	o.Class(len(distinct) < len(ws), "repeated words")
	o.Class(len(ws) > 500, "over 500 words")
	if err := same("lower-casing", filter.NewLowercase().Process(clone(ws)), each(ws, strings.ToLower)); err != nil {
		return err
	}
	if err := same("stemming", filter.NewStemmer(stemmer.Snowball).Process(clone(ws)), each(ws, porter2.Stem)); err != nil {
		return err
	}
	for w := range distinct {
		if s, ok := stems[w]; ok {
			if g := filter.NewStemmer(stemmer.Snowball).Process([]string{w}); len(g) != 1 || g[0] != s {
				return fmt.Errorf("stem of %q is %q, want %q", w, g, s)
			}
		}
	}
	// accent removal is defined on text: invalid bytes are kept out
	valid := each(ws, func(w string) string { return strings.ToValidUTF8(w, "?") })
	if err := same("accent removal", filter.NewASCII().Process(clone(valid)), each(valid, h.Strip)); err != nil {
		return err
	}
	if n := len(filter.NewASCII().Process(clone(ws))); n != len(ws) {
		return fmt.Errorf("accent removal turns %d words into %d", len(ws), n)
	}
	stop := map[string]bool{}
	for _, s := range c.Stop {
		stop[string(s)] = true
	}
	for name, list := range map[string]map[string]bool{"own": stop, "English": h.StopEN, "Portuguese": h.StopPT} {
		arg := list
		switch name {
		case "English":
			arg = language.GetWords(language.English)
		case "Portuguese":
			arg = language.GetWords(language.Portuguese)
		}
		want := []string{}
		for _, w := range ws {
			if !list[w] {
				want = append(want, w)
			}
		}
		if err := same("stop words ("+name+")", filter.NewStopWords(arg).Process(clone(ws)), want); err != nil {
			return err
		}
	}
	counts := metric.TermFrequency(clone(ws))
	total := 0
	for w, n := range h.Counts(ws) {
		if counts[w] != n {
			return fmt.Errorf("%q is counted %d times, occurs %d times", w, counts[w], n)
		}
		total += n
	}
	if len(counts) != len(distinct) || total != len(ws) {
		return fmt.Errorf("%d words are counted as %d", len(distinct), len(counts))
	}
	return nil
}

type Lang struct{ L h.Str }

func Test(t *testing.T) {
	h.Run(t, h.Sub[Text]{Name: "tokens", Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) Text {
			c := Text{T: rapid.OneOf(
				rapid.Map(h.Text(12), func(s string) h.Str { return h.Str(s) }), h.AnyStr(),
				rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]rune("aZ9'’-_ é\u0301²Ⅻ½日ªʰǅا٣\u200d\ufffd\n.,")), 0, 30), func(r []rune) h.Str { return h.Str(string(r)) }),
			).Draw(t, "text")}
			if n := len(c.T); n > 0 && rapid.IntRange(0, 60).Draw(t, "long") == 0 {
				c.Times = h.Size(300000).Draw(t, "bytes") / n
				c.Blanks = rapid.IntRange(0, 9).Draw(t, "blanks")
			}
			return c
		},
		Check: func(c Text, o *h.Obs) error {
			text := string(c.T) + strings.Repeat(string(c.T), c.Times) + strings.Repeat(" ", c.Blanks)
			o.Class(len(text) > 65536, "over 64 KiB")
			want := h.Tokenize(text)
			o.Nontrivial(len(want) > 1)
			if err := same("tokens", tokenizer.NewStandard().Tokenize(text), want); err != nil {
				return err
			}
			if c.Times > 0 && len(text) > 20000 {
				return nil // the stages do not see texts
			}
			// the whole chain: its stages are independent of one another
			w := tokenizer.NewStandard().Tokenize(text)
			w = filter.NewLowercase().Process(w)
			w = filter.NewStopWords(language.GetWords(language.English)).Process(w)
			w = filter.NewStemmer(stemmer.Snowball).Process(w)
			w = filter.NewASCII().Process(w)
			return same("analysis", w, h.Analyse(text))
		}})
	h.Run(t, h.Sub[Words]{Name: "stages", Quick: 12000, Thorough: 300000,
		Gen: func(t *rapid.T) Words {
			word := rapid.OneOf(
				rapid.Map(h.Word(), func(s string) h.Str { return h.Str(s) }),
				rapid.Map(h.Word(), func(s string) h.Str { return h.Str(s) }),
				rapid.Map(rapid.SampledFrom(h.SortedKeys(stems)), func(s string) h.Str { return h.Str(s) }),
				rapid.Map(rapid.SampledFrom(h.SortedKeys(h.StopPT)), func(s string) h.Str { return h.Str(s) }),
				rapid.Map(rapid.StringMatching(`[aeoücñ日]([\x{300}-\x{36f}]{1,3}|)[a-z]{0,3}`), func(s string) h.Str { return h.Str(s) }),
				rapid.Map(rapid.IntRange(25, 70), func(n int) h.Str { return h.Str("a" + strings.Repeat("\u0301", n)) }),
				rapid.Map(rapid.IntRange(1000, 9000), func(n int) h.Str { return h.Str(strings.Repeat("é", n) + "Z") }),
				h.AnyStr())
			c := Words{W: rapid.SliceOfN(word, 0, 14).Draw(t, "words")}
			for i := 1; i < len(c.W); i++ {
				if rapid.IntRange(0, 4).Draw(t, "relative") == 0 {
					c.W[i] = h.Str(h.Relative(string(c.W[rapid.IntRange(0, i-1).Draw(t, "of")])).Draw(t, "word"))
				}
			}
			c.Stop = rapid.SliceOfN(rapid.OneOf(word, rapid.SampledFrom(append([]h.Str{"x"}, c.W...))), 0, 5).Draw(t, "stop")
			if rapid.IntRange(0, 15).Draw(t, "many") == 0 {
				c.Copies = rapid.IntRange(20, 200).Draw(t, "copies")
			}
			return c
		}, Check: stages})
	h.Run(t, h.Sub[Lang]{Name: "languages", Quick: 800, Thorough: 20000,
		Fixed: []Lang{{"EN"}, {"PT"}, {""}, {"en"}, {"pt"}, {"ES"}, {"EN "}},
		Gen: func(t *rapid.T) Lang {
			return Lang{rapid.OneOf(rapid.Map(rapid.StringMatching(`[A-Za-z]{0,3}`), func(s string) h.Str { return h.Str(s) }), h.AnyStr()).Draw(t, "lang")}
		},
		Check: func(c Lang, o *h.Obs) error {
			var want map[string]bool
			switch c.L {
			case "EN":
				want = h.StopEN
			case "PT":
				want = h.StopPT
			default:
				o.Nontrivial(len(c.L) > 0)
				if !refused(func() { language.GetWords(language.Language(c.L)) }) {
					return fmt.Errorf("language %q is not refused", c.L)
				}
				return nil
			}
			o.Nontrivial(true)
			got := language.GetWords(language.Language(c.L))
			n := 0
			for w, in := range got {
				if in {
					n++
				}
				if in && !want[w] {
					return fmt.Errorf("list %q holds %q", c.L, w)
				}
			}
			for w := range want {
				if !got[w] {
					return fmt.Errorf("list %q lacks %q", c.L, w)
				}
			}
			if n != len(want) {
				return fmt.Errorf("list %q has %d words, want %d", c.L, n, len(want))
			}
			return nil
		}})
}
