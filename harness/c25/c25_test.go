package c25

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// Entry is one entry of the feed; nil authors: the entry has none.
type Entry struct {
	Title, Summary string
	Authors        []string
	Style          []int // how texts are written, and what stands between the elements
	Repeat         int
}

// Feed is one answer of the service.
type Feed struct {
	Entries []Entry
	Title   string
	Prolog  int
	Fail    string // "": a feed; else what comes instead
	Cut     int    // Fail "cut": so many percent of the body arrive
	Chunk   int    // bytes per read
}

type Case struct{ Feeds []Feed }

func esc(s string, style int) string {
	switch style % 4 {
	case 1: // numeric references
		var b strings.Builder
		for _, r := range s {
			if r == '<' || r == '&' || r == '\r' || r > 126 || r == '>' {
				fmt.Fprintf(&b, "&#x%X;", r)
			} else {
				b.WriteRune(r)
			}
		}
		return b.String()
	case 2:
		if !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
	case 3: // half and half
		if n := len(s) / 2; utf8.RuneStart((s + " ")[n]) {
			return esc(s[:n], 0) + "<!-- <title>no</title> -->" + esc(s[n:], 2)
		}
	}
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (e Entry) summary() string { return strings.Repeat(e.Summary, 1+e.Repeat) }

func (f Feed) body() string {
	var b strings.Builder
	if f.Prolog%2 == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if f.Prolog%3 == 0 {
		b.WriteString("<!-- feed -->\n")
	}
	ns, p := ` xmlns="http://www.w3.org/2005/Atom"`, ""
	if f.Prolog%5 == 0 {
		ns, p = ` xmlns:a="http://www.w3.org/2005/Atom"`, "a:"
	}
	if f.Prolog%5 == 1 {
		ns = ""
	}
	el := func(name, content string) string { return "<" + p + name + ">" + content + "</" + p + name + ">" }
	b.WriteString("<" + p + "feed" + ns + ">")
	b.WriteString(el("title", esc(f.Title, f.Prolog)))
	for _, e := range f.Entries {
		st := func(i int) int { return e.Style[i%len(e.Style)] }
		parts := []string{el("title", esc(e.Title, st(0))), el("summary", esc(e.summary(), st(1)))}
		for i, a := range e.Authors {
			parts = append(parts, el("author", el("name", esc(a, st(2+i)))+[]string{"", "<affiliation>title</affiliation>"}[st(3)%2]))
		}
		parts = append(parts, []string{"", "\n  ", `<` + p + `link href="http://x/1" type="text/html"/>`, el("id", "http://arxiv.org/abs/1"),
			el("published", "2012-01-01T00:00:00Z"), `<category term="title"/>`, "<!-- <entry/> -->"}[st(4)%7])
		var l string
		for i := range parts {
			l += parts[(i+st(5))%len(parts)]
			if st(6)%2 == 0 {
				l += "\n    "
			}
		}
		b.WriteString(el("entry", l))
	}
	b.WriteString("</" + p + "feed>")
	if f.Prolog%3 == 1 {
		b.WriteString("\n")
	}
	return b.String()
}

// wire is the network: it answers every request with the feed of the moment.
type wire struct {
	feed  Feed
	calls int
	open  int // bodies not closed
}

type body struct {
	w   *wire
	r   io.Reader
	n   int
	err error
}

func (b *body) Read(p []byte) (int, error) {
	if len(p) > b.n {
		p = p[:b.n]
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func (b *body) Close() error { b.w.open--; return nil }

var errNet = errors.New("network is unreachable")

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	w.calls++
	f := w.feed
	s, status := f.body(), 200
	var err error
	switch f.Fail {
	case "refused":
		return nil, errNet
	case "cut": // the connection ends early
		s = s[:len(s)*f.Cut/100]
		s = strings.TrimRight(s, " \n>")
		err = io.ErrUnexpectedEOF
	case "short": // the answer is just not complete
		s = strings.TrimRight(s[:len(s)*f.Cut/100], " \n>")
	case "html":
		s, status = "<html><head><title>feed</title></head><body><p>busy</p></body></html>", 503
	case "text":
		s, status = "Rate exceeded.", 429
	case "empty":
		s = ""
	case "nested": // not well-formed
		s = strings.Replace(s, "</"+[]string{"a:", ""}[min(1, f.Prolog%5)]+"feed>", "</entry>", 1)
	}
	w.open++
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		ContentLength: -1, Request: r, Body: &body{w, strings.NewReader(s), max(1, f.Chunk), err}}, nil
}

func analyse(text string) []string {
	r := tokenizer.NewStandard().Tokenize(text)
	r = filter.NewLowercase().Process(r)
	r = filter.NewStopWords(language.GetWords(language.English)).Process(r)
	r = filter.NewStemmer(stemmer.Snowball).Process(r)
	return filter.NewASCII().Process(r)
}

func check(c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	old, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		return err
	}
	defer os.Chdir(old)
	if err := os.Mkdir("testecolection", 0o755); err != nil {
		return err
	}
	const path = "testecolection/arxiv.txt"
	first := "{\"Id\":\"1\",\"Title\":\"before\",\"Summary\":\"s\",\"Author\":\"a\"}\n"
	if err := os.WriteFile(path, []byte(first), 0o644); err != nil {
		return err
	}
	w := &wire{}
	before := http.DefaultTransport
	http.DefaultTransport = w
	defer func() { http.DefaultTransport = before }()
	ids := map[string]bool{}
	for n, f := range c.Feeds {
		oldFile, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		w.feed, w.calls = f, 0
		testecolection.CriarArquivo()
		if w.calls == 0 {
			return fmt.Errorf("feed %d: no request was made", n)
		}
		if w.open != 0 {
			return fmt.Errorf("feed %d: %d answers were not closed", n, w.open)
		}
		if f.Fail != "" {
			o.Class(true, "answer: "+f.Fail)
			now, err := os.ReadFile(path)
			if err != nil || !bytes.Equal(now, oldFile) {
				return fmt.Errorf("feed %d: the answer is no feed (%s), but the collection has changed: %d bytes (%v), before %d", n, f.Fail, len(now), err, len(oldFile))
			}
			o.Nontrivial(n > 0 && len(c.Feeds[n-1].Entries) > 0)
			continue
		}
		docs := testecolection.GetDocuments()
		if len(docs) != len(f.Entries) {
			return fmt.Errorf("feed %d: %d documents for %d entries", n, len(docs), len(f.Entries))
		}
		o.Nontrivial(len(docs) > 1)
		o.Class(len(docs) > 50, "over 50 entries")
		o.Class(len(docs) == 0, "no entries")
		for i, e := range f.Entries {
			d := docs[i]
			if d.Title != e.Title || d.Summary != e.summary() {
				return fmt.Errorf("feed %d: document %d is %.300q, want title %.100q and summary %.200q", n, i, fmt.Sprint(d), e.Title, e.summary())
			}
			ok := len(e.Authors) == 0 && d.Author == ""
			for _, a := range e.Authors {
				ok = ok || d.Author == a
			}
			if !ok {
				return fmt.Errorf("feed %d: document %d has author %q, the entry has %q", n, i, d.Author, e.Authors)
			}
			if d.Id == "" || ids[d.Id] {
				return fmt.Errorf("feed %d: document %d has id %q, which is empty or used", n, i, d.Id)
			}
			ids[d.Id] = true
		}
		if err := pipeline(docs); err != nil {
			return fmt.Errorf("feed %d: %w", n, err)
		}
	}
	return nil
}

// pipeline indexes the collection the way the program does and searches every field for the words of every document.
func pipeline(docs []testecolection.Document) error {
	store := storage.NewMemory()
	inv := index.NewIndex(store)
	m := h.NewModel()
	for _, line := range testecolection.GetTextDocuments() {
		flat := field.Flatten(field.StringToObject(line))
		id := field.GetID(flat)
		var fields []model.Field
		for k, v := range flat {
			r := analyse(fmt.Sprintf("%s", v))
			fields = append(fields, model.Field{Name: k, Length: len(r), TF: metric.TermFrequency(r)})
		}
		inv.IndexDocument(id, model.NormalizedDocument{Fields: fields})
	}
	for _, d := range docs {
		for f, text := range map[string]string{"Id": d.Id, "Title": d.Title, "Summary": d.Summary, "Author": d.Author} {
			ws := h.Analyse(text)
			m.Add(h.Save{Doc: d.Id, Field: f, TF: h.Counts(ws), Len: len(ws)})
		}
	}
	if err := m.Compare(store); err != nil {
		return fmt.Errorf("indexed collection: %w", err)
	}
	for i, d := range docs {
		if i >= 4 {
			break
		}
		qs := []h.Query{{Field: "Title", Boost: 2, Terms: h.Analyse(d.Title)}, {Field: "Summary", Boost: 1, Terms: h.Analyse(d.Summary + " " + d.Author)}}
		qs[1].Terms = qs[1].Terms[:min(30, len(qs[1].Terms))]
		if err := h.DoSearch(store, m, qs); err != nil {
			return err
		}
	}
	return nil
}

func xmlText(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !(r == 9 || r == 10 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000) {
			return false
		}
	}
	return true
}

func text() *rapid.Generator[string] {
	return rapid.OneOf(
		h.Text(8).Filter(xmlText),
		rapid.StringMatching(`[a-zA-Z ,.\n]{0,30}`),
		rapid.StringMatching(`[<>&'"éß日😀 \n\t;#x\]\[!-]{0,12}`),
		rapid.SampledFrom([]string{"", " ", "\n  A title\n  over lines ", "<b>x</b>", "&amp;", "]]>", "a & b < c", "{\"Id\":\"x\"}", "\ufeffx", "null", "\u2028"}),
	)
}

func entry() *rapid.Generator[Entry] {
	return rapid.Custom(func(t *rapid.T) Entry {
		e := Entry{Title: text().Draw(t, "title"), Summary: text().Draw(t, "summary"), Authors: rapid.SliceOfN(text(), 0, 3).Draw(t, "authors"),
			Style: rapid.SliceOfN(rapid.IntRange(0, 41), 1, 7).Draw(t, "style")}
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			e.Repeat = rapid.IntRange(50, 3000).Draw(t, "repeat")
			if n := len(e.Summary); n > 0 && rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
				e.Repeat = rapid.IntRange(1<<19, 5<<20).Draw(t, "bytes") / n
			}
		}
		return e
	})
}

func gen(t *rapid.T) Case {
	feed := rapid.Custom(func(t *rapid.T) Feed {
		f := Feed{Title: text().Draw(t, "feedtitle"), Prolog: rapid.IntRange(0, 29).Draw(t, "prolog"),
			Chunk: rapid.SampledFrom([]int{1, 7, 512, 1 << 20}).Draw(t, "chunk")}
		f.Fail = rapid.SampledFrom([]string{"", "", "", "", "refused", "cut", "short", "html", "text", "empty", "nested"}).Draw(t, "fail")
		f.Cut = rapid.IntRange(1, 100).Draw(t, "percent")
		f.Entries = rapid.SliceOfN(entry(), 0, 5).Draw(t, "entries")
		if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
			es := f.Entries
			for n := h.Size(rapid.SampledFrom([]int{300, 300, 300, 3000}).Draw(t, "upto")).Draw(t, "n"); len(es) > 0 && len(f.Entries) < n; {
				f.Entries = append(f.Entries, es[len(f.Entries)%len(es)])
			}
			for i := range f.Entries {
				f.Entries[i].Repeat = min(f.Entries[i].Repeat, 3)
			}
		}
		return f
	})
	return Case{rapid.SliceOfN(feed, 1, 4).Draw(t, "feeds")}
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "feed", Quick: 4000, Thorough: 80000, Gen: gen, Check: check,
		Fixed: []Case{{Feeds: []Feed{{Fail: "refused"}, {Entries: []Entry{{Title: "a", Summary: "b", Authors: []string{"c"}, Style: []int{0}}}}}}}})
}
