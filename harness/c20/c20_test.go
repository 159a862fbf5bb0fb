package c20

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Doc struct {
	Id, Title, Summary, Author string
	Repeat                     int // the summary is repeated so often
}

type Case struct{ Batches [][]Doc } // each batch opens the file anew to append

func text() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z ,.]{0,20}`),
		rapid.String().Filter(utf8.ValidString),
		rapid.StringMatching(`[\n\r\t"\\{}<>&'\x00-\x1f  éß日😀]{0,12}`),
		rapid.SampledFrom([]string{"", "\n", "\r\n", "line\nbreak\n", `"quoted" \ back`, `{"Id":"x"}`, "EOF", "\ufeff", "\u2028\u2029", "null"}),
	)
}

func (d Doc) make() testecolection.Document {
	return testecolection.Document{Id: d.Id, Title: d.Title, Summary: strings.Repeat(d.Summary, 1+d.Repeat), Author: d.Author}
}

func check(c Case, o *h.Obs) error {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	old, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		return err
	}
	defer os.Chdir(old)
	if err := os.Mkdir("testecolection", 0o755); err != nil {
		return err
	}
	var want []testecolection.Document
	breaks := false
	for n, batch := range c.Batches {
		f, err := os.OpenFile("testecolection/arxiv.txt", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			return err
		}
		for _, d := range batch {
			doc := d.make()
			breaks = breaks || strings.ContainsAny(doc.Title+doc.Summary+doc.Author, "\n\r\"")
			o.Class(len(doc.Summary) > 4096, "longer than a buffer")
			o.Class(len(doc.Summary) > 65536, "longer than 64 KiB")
			o.Class(len(doc.Summary) > 1<<20, "longer than 1 MiB")
			testecolection.GravarLinhasNoArquivo(f, doc)
			want = append(want, doc)
		}
		f.Close()
		raw := testecolection.GetTextDocuments()
		docs := testecolection.GetDocuments()
		if len(raw) != len(want) || len(docs) != len(want) {
			return fmt.Errorf("after batch %d: %d raw and %d parsed documents, want %d", n, len(raw), len(docs), len(want))
		}
		for i, w := range want {
			if docs[i] != w {
				return fmt.Errorf("document %d reads %.300q, want %.300q", i, fmt.Sprint(docs[i]), fmt.Sprint(w))
			}
			var d testecolection.Document
			if err := json.Unmarshal([]byte(raw[i]), &d); err != nil {
				return fmt.Errorf("raw line %d: %w", i, err)
			}
			if d != w {
				return fmt.Errorf("raw line %d parses to %.300q, want %.300q", i, fmt.Sprint(d), fmt.Sprint(w))
			}
			if l := strings.TrimRight(raw[i], "\n"); strings.Contains(l, "\n") {
				return fmt.Errorf("raw line %d holds several lines", i)
			}
		}
	}
	o.Nontrivial(breaks && len(want) > 1)
	return nil
}

func Test(t *testing.T) {
	h.Run(t, h.Sub[Case]{Name: "file", Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) Case {
			doc := rapid.Custom(func(t *rapid.T) Doc {
				d := Doc{Id: text().Draw(t, "id"), Title: text().Draw(t, "title"), Summary: text().Draw(t, "summary"), Author: text().Draw(t, "author")}
				if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
					d.Repeat = rapid.IntRange(100, 9000).Draw(t, "repeat")
					if n := len(d.Summary); n > 0 && rapid.IntRange(0, 99).Draw(t, "huge") == 0 {
						d.Repeat = rapid.IntRange(1<<20, 9<<20).Draw(t, "bytes") / n
					}
				}
				return d
			})
			return Case{rapid.SliceOfN(rapid.SliceOfN(doc, 0, 6), 1, 3).Draw(t, "batches")}
		}, Check: check})
}
