package h

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// The published lists: Lucene's default English stop set and its Brazilian Portuguese one (without single letters).
const stopEN = `a an and are as at be but by for if in into is it no not of on or such that the their then there these
they this to was will with`
const stopPT = `a ainda alem ambas ambos antes ao aonde aos apos aquele aqueles as assim com como contra contudo cuja
cujas cujo cujos da das de dela dele deles demais depois desde desta deste dispoe dispoem diversa diversas diversos do
dos durante e ela elas ele eles em entao entre essa essas esse esses esta estas este estes ha isso isto logo mais mas
mediante menos mesma mesmas mesmo mesmos na nas nao nem nesse neste nos o os ou outra outras outro outros pelas pelo
pelos perante pois por porque portanto proprio propios quais qual qualquer quando quanto que quem quer se seja sem
sendo seu seus sob sobre sua suas tal tambem teu teus toda todas todo todos tua tuas tudo um uma umas uns`

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// StopEN and StopPT are the reference stop-word lists.
var StopEN, StopPT = words(stopEN), words(stopPT)

// Tokenize is the reference tokenizer.
func Tokenize(text string) []string {
	var out []string
	start := -1
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		part := unicode.IsLetter(r) || unicode.IsNumber(r) || r == '\''
		if part && start < 0 {
			start = i
		} else if !part && start >= 0 {
			out = append(out, text[start:i])
			start = -1
		}
		i += n
	}
	if start >= 0 {
		out = append(out, text[start:])
	}
	return out
}

// Lower is the reference lower-casing.
func Lower(w string) string {
	var out strings.Builder
	for _, r := range w {
		out.WriteRune(unicode.ToLower(r))
	}
	return out.String()
}

// Strip is the reference accent removal.
func Strip(w string) string {
	var b strings.Builder
	for _, r := range norm.NFD.String(w) {
		if !unicode.Is(unicode.Mn, r) {
			b.WriteRune(r)
		}
	}
	return norm.NFC.String(b.String())
}

// Analyse is the reference analysis chain.
func Analyse(text string) []string {
	var out []string
	for _, w := range Tokenize(text) {
		w = Lower(w)
		if StopEN[w] {
			continue
		}
		out = append(out, Strip(porter2.Stem(w)))
	}
	return out
}

// Counts counts the words.
func Counts(ws []string) map[string]int {
	m := map[string]int{}
	for _, w := range ws {
		m[w]++
	}
	return m
}

var vocabulary = strings.Fields(`cat cats dog Dogs house houses running runner ran galaxy galaxies The and of is Will
search searching searched engine engines don't dog's o'clock café Cafe naïve über Straße ação ações coração İstanbul
quick brown foxes jumped lazily 42 3rd 1984 ², Ⅻ x y z happily relational conditional generously skies dying exceed
news inning outing proceed succeed early only université ﬁne Ǆ kind kinds fluently caresses ponies ties hopping`)

// Word draws a word: from a small vocabulary, or anything made of word characters.
func Word() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom(vocabulary), rapid.SampledFrom(vocabulary), rapid.SampledFrom(vocabulary),
		rapid.SampledFrom(SortedKeys(StopEN)),
		rapid.StringMatching(`[a-zA-Z]{1,10}`),
		rapid.StringMatching(`[a-y]{1,6}(ing|ed|ly|ness|ization|es|s|ational|ies|y|'s|'s'|eed|ful|ment|tion)`),
		rapid.StringMatching(`'{0,2}[a-zA-Z']{1,6}'{0,2}`),
		rapid.StringMatching(`[\p{L}]{1,5}`), rapid.StringMatching(`[\p{N}]{1,4}`),
		rapid.StringMatching(`[\p{Latin}\p{Greek}\p{Cyrillic}\p{Han}\p{Hangul}\p{Arabic}]{1,6}`),
		rapid.StringMatching(`[a-zéÉ]{20,70}`),
	)
}

// Sep draws text between words.
func Sep() *rapid.Generator[string] {
	return rapid.OneOf(rapid.Just(" "), rapid.Just(" "), rapid.Just(" "), rapid.SampledFrom([]string{", ", ". ", "-", "_", "\n", "\t", "/", "\u00a0", "—", " (", ") ", "\u2019", "\"", "…", "😀", "\u0301 ", "\u200d", "@", "#", "+", "%", "\x00", "\ufffd"}),
		rapid.StringMatching(`[^\p{L}\p{N}']{1,3}`))
}

// Text draws a text of up to n words.
func Text(n int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var before []string
		var b strings.Builder
		if rapid.IntRange(0, 4).Draw(t, "lead") == 0 {
			b.WriteString(Sep().Draw(t, "sep"))
		}
		for i, k := 0, rapid.IntRange(0, n).Draw(t, "words"); i < k; i++ {
			w := ""
			if len(before) > 0 && rapid.IntRange(0, 4).Draw(t, "relative") == 0 {
				w = Relative(rapid.SampledFrom(before).Draw(t, "of")).Draw(t, "word")
			} else {
				w = Word().Draw(t, "word")
			}
			before = append(before, w)
			b.WriteString(w)
			if i < k-1 || rapid.Bool().Draw(t, "trail") {
				b.WriteString(Sep().Draw(t, "sep"))
			}
		}
		return b.String()
	})
}

// Relative draws a word that is almost w: the same beginning or end, or one letter apart.
func Relative(w string) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		r := []rune(w)
		at := func() int { return rapid.IntRange(0, len(r)).Draw(t, "at") }
		letter := rapid.SampledFrom([]rune("aeixszéÉ7'")).Draw(t, "letter")
		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 0:
			return w
		case 1:
			return w + string(letter)
		case 2:
			return w + rapid.SampledFrom([]string{"s", "ing", "ed", "ly", "ation", "'s"}).Draw(t, "suffix")
		case 3: // another end
			return string(r[:at()]) + string(letter)
		case 4: // another beginning
			return string(letter) + string(r[at():])
		case 5: // one letter off
			if i := at(); i < len(r) {
				r[i] = letter
			}
			return string(r)
		default:
			return flipAccents(w)
		}
	})
}

func flipAccents(w string) string {
	return strings.Map(func(r rune) rune {
		const with, without = "áéíóúÁÉÍÓÚçñ", "aeiouAEIOUcn"
		for i, x := range []rune(with) {
			if r == x {
				return rune(without[i])
			}
			if r == rune(without[i]) {
				return x
			}
		}
		return r
	}, w)
}
