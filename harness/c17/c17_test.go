package c17

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) {
	h.HangLimit = 300 * time.Second
	h.Main(m)
}

type Doc struct {
	Id, Title, Text string
	Pad             int `json:",omitempty"` // so many blanks before the text
	Times           int `json:",omitempty"` // the text once more, so many times
	How             int `json:",omitempty"` // the way it is sent
}

// all is the text that is sent.
func (d Doc) all() string {
	return strings.Repeat(" ", d.Pad) + d.Text + strings.Repeat(" "+d.Text, d.Times)
}

// Op is one step of a session with a server.
type Op struct {
	K     string   // post, bad, get, odd, together, wait, restart, crash
	Doc   *Doc     `json:",omitempty"`
	Body  string   `json:",omitempty"`
	Query string   `json:",omitempty"`
	Docs  []Doc    `json:",omitempty"` // together: one goroutine each
	Qs    []string `json:",omitempty"`
	Ms    int      `json:",omitempty"` // wait, real milliseconds
}

type Session []Op

// ---- the server

type server struct {
	cmd    *exec.Cmd
	base   string
	dir    string
	exited chan struct{}
	client *http.Client
}

var portMu sync.Mutex
var lastPort = os.Getpid() % 2500

// freePort gives every server a port of its own: below those the kernel hands out, in a range of this shard.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for {
		lastPort = (lastPort + 1) % 2500
		port := 10000 + shard%8*2500 + lastPort
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err == nil {
			l.Close()
			return port
		}
	}
}

func start(dir, bin string) (*server, error) {
	var last error
	for try := 0; try < 5; try++ {
		port := freePort()
		s := &server{dir: dir, base: fmt.Sprintf("http://127.0.0.1:%d", port), exited: make(chan struct{}),
			client: &http.Client{Timeout: 90 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}}
		out, err := os.OpenFile(filepath.Join(dir, "log"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		if err != nil {
			return nil, err
		}
		s.cmd = exec.Command(os.Getenv(bin))
		s.cmd.Dir = dir
		s.cmd.Env = append(os.Environ(), "PORT="+strconv.Itoa(port), "GOMAXPROCS=4", "GIN_MODE=release")
		s.cmd.Stdout, s.cmd.Stderr = out, out
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		out.Close()
		go func() { s.cmd.Wait(); close(s.exited) }()
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
			select {
			case <-s.exited:
			default:
				c, err := net.DialTimeout("tcp", s.base[len("http://"):], time.Second)
				if err == nil {
					c.Close()
					// the port is answered by this very process?
					select {
					case <-s.exited:
					case <-time.After(20 * time.Millisecond):
						return s, nil
					}
				} else {
					time.Sleep(3 * time.Millisecond)
					continue
				}
			}
			break
		}
		log := s.log()
		s.kill()
		last = fmt.Errorf("the service does not start: %s", log)
		if !strings.Contains(log, "address already in use") {
			return nil, last
		}
	}
	return nil, last
}

func (s *server) log() string {
	b, _ := os.ReadFile(filepath.Join(s.dir, "log"))
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

func (s *server) kill() {
	s.client.CloseIdleConnections()
	s.cmd.Process.Kill()
	<-s.exited
}

// alive turns a failed request into a report that says whether the service has died.
func (s *server) alive(err error) error {
	select {
	case <-s.exited:
		return fmt.Errorf("the service died: %w: %s", err, s.log())
	case <-time.After(50 * time.Millisecond):
		return err
	}
}

func (s *server) post(body string) (int, error) { return s.send(body, 0) }

// send posts a body: with its length or in chunks, and with or without saying what it is.
func (s *server) send(body string, how int) (int, error) {
	var in io.Reader = strings.NewReader(body)
	if how%2 == 1 {
		in = io.MultiReader(in)
	}
	r, err := s.client.Post(s.base+"/nir", []string{"application/json", "application/json; charset=utf-8", "text/plain"}[how/2%3], in)
	if err != nil {
		return 0, s.alive(fmt.Errorf("POST %.200q: %w", body, err))
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	return r.StatusCode, nil
}

type hit struct {
	id    string
	score float64
}

func (s *server) get(raw string) ([]hit, error) {
	r, err := s.client.Get(s.base + "/nir" + raw)
	if err != nil {
		return nil, s.alive(fmt.Errorf("GET %.200q: %w", raw, err))
	}
	b, err := io.ReadAll(r.Body)
	r.Body.Close()
	if err != nil {
		return nil, s.alive(fmt.Errorf("GET %.200q: %w", raw, err))
	}
	if r.StatusCode != 200 {
		return nil, fmt.Errorf("GET %.200q: status %d", raw, r.StatusCode)
	}
	var res struct {
		QueryResults []struct {
			Similarity *float64 `json:"similarity"`
			Document   struct {
				Id *string `json:"id"`
			} `json:"document"`
		} `json:"queryResults"`
	}
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, fmt.Errorf("GET %.200q: the answer is no JSON: %w", raw, err)
	}
	var l []hit
	for _, x := range res.QueryResults {
		if x.Similarity == nil || x.Document.Id == nil {
			return nil, fmt.Errorf("GET %.200q: a result lacks id or score: %s", raw, b)
		}
		l = append(l, hit{*x.Document.Id, *x.Similarity})
	}
	return l, nil
}

func param(q string) string { return "?query=" + url.QueryEscape(q) }

// ---- the reference

func add(m *h.Model, d Doc) {
	for _, f := range [][2]string{{"id", d.Id}, {"title", d.Title}, {"text", d.all()}} {
		ws := h.Analyse(f[1])
		m.Add(h.Save{Doc: d.Id, Field: f[0], TF: h.Counts(ws), Len: len(ws)})
	}
}

func ask(m *h.Model, q string) map[string]float64 {
	ws := h.Analyse(q)
	return m.Search([]h.Query{{Field: "title", Boost: 1, Terms: ws}, {Field: "text", Boost: 1, Terms: ws}})
}

func judge(got []hit, want map[string]float64) error {
	top := h.TopScores(want)
	if n := min(10, len(top)); len(got) != n {
		return fmt.Errorf("%d results, want %d", len(got), n)
	}
	seen := map[string]bool{}
	for i, g := range got {
		if seen[g.id] {
			return fmt.Errorf("document %q is returned twice", g.id)
		}
		seen[g.id] = true
		w, ok := want[g.id]
		if !ok {
			return fmt.Errorf("document %q is returned but does not match", g.id)
		}
		if !h.Close(g.score, w) {
			return fmt.Errorf("document %q has score %v, want %v", g.id, g.score, w)
		}
		if !h.Close(g.score, top[i]) {
			return fmt.Errorf("rank %d has score %v, want %v", i+1, g.score, top[i])
		}
		if i > 0 && g.score > got[i-1].score {
			return fmt.Errorf("rank %d has score %v after %v", i+1, g.score, got[i-1].score)
		}
	}
	return nil
}

func body(d Doc) string {
	b, err := json.Marshal(map[string]string{"id": d.Id, "title": d.Title, "text": d.all()})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// odd requests the service must survive.
var odd = []string{
	"GET /nir?query=%zz HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"GET /nir?query=a;b HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"GET /nir HTTP/1.0\r\n\r\n",
	"GET /nowhere HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"DELETE /nir HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"PUT /nir HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\nConnection: close\r\n\r\n{}",
	"HEAD /nir HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"POST /nir HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\nConnection: close\r\n\r\n{\"id\"",
	"POST /nir HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"POST /nir HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
	"garbage\r\n\r\n", "\x00\x01\x02", "GET", "",
	"GET /nir?query=" + strings.Repeat("word+", 4000) + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
}

func (s *server) raw(req string) {
	c, err := net.Dial("tcp", s.base[len("http://"):])
	if err != nil {
		return
	}
	defer c.Close()
	c.Write([]byte(req))
	c.(*net.TCPConn).CloseWrite()
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	io.Copy(io.Discard, c)
}

func session(c Session, o *h.Obs) error { return sessionOf("VERIF_SERVER", c, o) }

func sessionOf(bin string, c Session, o *h.Obs) (err error) {
	dir := h.Scratch()
	defer os.RemoveAll(dir)
	s, err := start(dir, bin)
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	m := h.NewModel()
	var posted []Doc
	check := func(q string) error {
		want := ask(m, q)
		o.Evals(1)
		o.Nontrivial(len(want) >= 2)
		o.Class(len(want) > 10, "more than ten matches")
		o.Class(len(want) > 0 && len(want) < 10, "one to nine matches")
		o.Class(len(want) == 0, "no match")
		got, err := s.get(param(q))
		if err != nil {
			return err
		}
		if err := judge(got, want); err != nil {
			return fmt.Errorf("query %q: %w", q, err)
		}
		return nil
	}
	full := func() error {
		for i, d := range posted {
			if i < 12 {
				if err := check(d.Title); err != nil {
					return err
				}
				if err := check(d.Text); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for i, op := range c {
		err := func() error {
			switch op.K {
			case "post":
				o.Class(op.Doc.Pad > 1<<20, "over a megabyte")
				o.Class(op.Doc.Times > 200, "long text")
				code, err := s.send(body(*op.Doc), op.Doc.How)
				if err != nil {
					return err
				}
				if code != 201 {
					return fmt.Errorf("POST of %q: status %d", op.Doc.Id, code)
				}
				add(m, *op.Doc)
				posted = append(posted, *op.Doc)
				if err := check(op.Doc.Title); err != nil {
					return err
				}
				return check(op.Doc.Text)
			case "bad":
				code, err := s.post(op.Body)
				if err != nil {
					return err
				}
				o.Class(true, "bad request")
				if code != 400 {
					return fmt.Errorf("POST of %.200q: status %d, want 400", op.Body, code)
				}
				return nil
			case "get":
				return check(op.Query)
			case "odd":
				s.raw(odd[op.Ms%len(odd)])
				o.Class(true, "odd request")
				got, err := s.get("")
				if err != nil {
					return err
				}
				if len(got) != 0 {
					return fmt.Errorf("a GET without a query returns documents")
				}
				return nil
			case "together":
				o.Class(true, "requests at the same time")
				return together(s, op, m, &posted)
			case "wait":
				time.Sleep(time.Duration(op.Ms) * time.Millisecond)
			case "restart":
				o.Class(len(posted) > 0, "restart")
				time.Sleep(21500 * time.Millisecond)
				s.kill()
				n, err := start(dir, bin)
				if err != nil {
					return err
				}
				s = n
				return full()
			case "crash":
				s.kill()
				n, err := start(dir, bin)
				if err != nil {
					return err
				}
				s = n
				o.Class(len(posted) > 0, "killed at once")
				ids := map[string]bool{}
				for _, d := range posted {
					ids[d.Id] = true
				}
				for _, d := range posted {
					got, err := s.get(param(d.Title + " " + d.Text))
					if err != nil {
						return err
					}
					for _, g := range got {
						if !ids[g.id] {
							return fmt.Errorf("document %q was never posted", g.id)
						}
					}
				}
				code, err := s.post(`{"id":"fresh","title":"zzyzx","text":""}`)
				if err != nil || code != 201 {
					return fmt.Errorf("POST after a crash: status %d, %v", code, err)
				}
				got, err := s.get("?query=zzyzx")
				if err != nil {
					return err
				}
				if len(got) != 1 || got[0].id != "fresh" {
					return fmt.Errorf("a document posted after a crash is not found: %v", got)
				}
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.K, err)
		}
	}
	if len(c) > 0 && c[len(c)-1].K != "crash" {
		return full()
	}
	return nil
}

func together(s *server, op Op, m *h.Model, posted *[]Doc) error {
	lower := m.Clone()
	upper := m.Clone()
	for _, d := range op.Docs {
		add(upper, d)
	}
	var wg sync.WaitGroup
	errs := make(chan error, len(op.Docs)+len(op.Qs))
	for _, d := range op.Docs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			code, err := s.send(body(d), d.How)
			if err != nil {
				errs <- err
			} else if code != 201 {
				errs <- fmt.Errorf("POST of %q: status %d", d.Id, code)
			}
		}()
	}
	for _, q := range op.Qs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				got, err := s.get(param(q))
				if err != nil {
					errs <- err
					return
				}
				lo, up := ask(lower, q), ask(upper, q)
				if len(got) < min(10, len(lo)) || len(got) > min(10, len(up)) {
					errs <- fmt.Errorf("query %q during posts: %d results, want %d..%d", q, len(got), min(10, len(lo)), min(10, len(up)))
					return
				}
				for i, g := range got {
					if _, ok := up[g.id]; !ok {
						errs <- fmt.Errorf("query %q during posts: document %q does not match", q, g.id)
						return
					}
					if math.IsNaN(g.score) || (i > 0 && g.score > got[i-1].score) {
						errs <- fmt.Errorf("query %q during posts: rank %d has score %v", q, i+1, g.score)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	for _, d := range op.Docs {
		add(m, d)
		*posted = append(*posted, d)
	}
	for _, q := range op.Qs {
		got, err := s.get(param(q))
		if err != nil {
			return err
		}
		if err := judge(got, ask(m, q)); err != nil {
			return fmt.Errorf("query %q after posts: %w", q, err)
		}
	}
	return nil
}

// ---- generation

var bad = []string{"", "{", "}", "[", "\"", "nul", "{\"id\":}", "{\"id\":\"x\"", "{\"id\" \"x\"}", "{'id':'x'}", "id=x", "{\"id\":\"x\",\"title\":\"cat\",\"text\":\"dog\"", "not json",
	"{\"id\":\"x\",\"title\":\"cat}", "<id>x</id>", "\x00", "{\"id\":\"x\",}", "{}", "{\"title\":\"cat\",\"text\":\"dog\"}", "{\"id\":\"\",\"title\":\"cat\",\"text\":\"dog\"}", "{\"id\":\"\"}",
	"{\"Title\":\"cat\"}", "{\"_id\":\"x\",\"title\":\"dog\"}", "{\"id\":null,\"title\":\"house\"}", "null",
	"{\"id\":\"x\",\"title\":5,\"text\":\"cat\"}", "{\"id\":\"x\",\"title\":[\"cat\"],\"text\":\"dog\"}", "{\"id\":7,\"title\":\"cat\",\"text\":\"dog\"}",
	"{\"id\":\"x\",\"title\":\"cat\",\"text\":{\"a\":1}}", "{\"id\":\"x\",\"title\":true}", "[{\"id\":\"x\",\"title\":\"cat\",\"text\":\"dog\"}]", "\"x\"", "5", "[]"}

func valid(s string) bool { return utf8.ValidString(s) }

func text(n int) *rapid.Generator[string] { return h.Text(n).Filter(valid) }

func docs(t *rapid.T, used map[string]bool, lo, hi int) []Doc {
	id := rapid.OneOf(rapid.StringMatching(`[a-z]{1,4}`), rapid.StringMatching(`[0-9]{1,6}`), rapid.StringMatching(`[A-Za-z0-9 ./_%-]{1,20}`),
		rapid.SampledFrom([]string{".", "..", "../x", "a/b", "/etc/passwd", "docs", "index", "x_temp", "%2F", "%", "日本", "é", "\n", " ", "\u0000", "x\\y"}),
		rapid.Map(rapid.IntRange(1, 900), func(n int) string { return strings.Repeat("ab/", n)[:n+n%2] }))
	var l []Doc
	for i := rapid.IntRange(lo, hi).Draw(t, "docs"); i > 0; i-- {
		d := Doc{Id: id.Draw(t, "id"), Title: text(5).Draw(t, "title"), Text: text(14).Draw(t, "text")}
		d.How = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "how")
		if rapid.IntRange(0, 19).Draw(t, "large") == 0 {
			d.Pad = h.Size(5<<20).Draw(t, "pad")
		}
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			d.Times = h.Size(3000).Draw(t, "times")
		}
		for used[d.Id] || d.Id == "fresh" {
			d.Id += strconv.Itoa(len(used))
		}
		used[d.Id] = true
		l = append(l, d)
	}
	return l
}

func query() *rapid.Generator[string] {
	return rapid.OneOf(text(4), text(70), rapid.SampledFrom([]string{"cat", "cats dogs", "Searching ENGINES", "the of and", "", "house, house; HOUSES!", "galaxy search", "running run", "don't", "café"}))
}

func gen(t *rapid.T, kinds []string, lo, hi int) Session {
	var c Session
	used := map[string]bool{}
	for n := rapid.IntRange(lo, hi).Draw(t, "ops"); n > 0; n-- {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch op.K {
		case "post":
			l := docs(t, used, 1, 1)
			op.Doc = &l[0]
		case "posts":
			for _, d := range docs(t, used, 1, 14) {
				c = append(c, Op{K: "post", Doc: &d})
			}
			continue
		case "bad":
			op.Body = rapid.SampledFrom(bad).Draw(t, "body")
		case "get":
			op.Query = query().Draw(t, "query")
		case "odd":
			op.Ms = rapid.IntRange(0, len(odd)-1).Draw(t, "which")
		case "together":
			op.Docs = docs(t, used, 1, 8)
			op.Qs = rapid.SliceOfN(query(), 1, 5).Draw(t, "qs")
		case "wait":
			op.Ms = rapid.SampledFrom([]int{10, 2500, 6000, 8000}).Draw(t, "ms")
		}
		c = append(c, op)
	}
	return c
}

type Restarts struct{ Sessions []Session } // run side by side

func Test(t *testing.T) {
	h.Run(t, h.Sub[Session]{Name: "session", Quick: 480, Thorough: 12000,
		Gen: func(t *rapid.T) Session {
			c := gen(t, []string{"post", "post", "posts", "bad", "get", "get", "odd", "together"}, 2, 14)
			if rapid.Bool().Draw(t, "crash") {
				c = append(c, Op{K: "crash"})
			}
			return c
		}, Check: session})
	// requests at the same time, answered by a server built with the race detector, which ends it at the first data race
	h.Run(t, h.Sub[Session]{Name: "races", Quick: 64, Thorough: 1600,
		Gen: func(t *rapid.T) Session {
			c := gen(t, []string{"together"}, 1, 4)
			for i := rapid.IntRange(0, 3).Draw(t, "more"); i > 0; i-- {
				c = append(c, gen(t, []string{"post", "wait", "get", "bad", "together"}, 1, 1)...)
			}
			seen := map[string]bool{}
			for i, op := range c {
				l := op.Docs
				if op.Doc != nil {
					d := *op.Doc
					op.Doc = &d
					l = nil
					for seen[d.Id] {
						d.Id += "-" + strconv.Itoa(i)
					}
					op.Doc.Id = d.Id
					seen[d.Id] = true
				}
				for j := range l {
					for seen[l[j].Id] {
						l[j].Id += "-" + strconv.Itoa(i)
					}
					seen[l[j].Id] = true
				}
				c[i] = op
			}
			return c
		}, Check: func(c Session, o *h.Obs) error { return sessionOf("VERIF_SERVER_RACE", c, o) }})
	h.Run(t, h.Sub[Restarts]{Name: "restarts", Quick: 8, Thorough: 160,
		Gen: func(t *rapid.T) Restarts {
			var r Restarts
			for i := 0; i < 6; i++ {
				a := gen(t, []string{"post", "posts", "together", "get", "wait"}, 1, 5)
				a = append(a, Op{K: "restart"})
				for _, op := range gen(t, []string{"post", "posts", "get"}, 1, 3) {
					if op.Doc != nil {
						op.Doc.Id += "-2"
					}
					a = append(a, op)
				}
				if rapid.Bool().Draw(t, "again") {
					a = append(a, Op{K: "restart"})
				}
				r.Sessions = append(r.Sessions, a)
			}
			return r
		},
		Check: func(r Restarts, o *h.Obs) error {
			errs := make([]error, len(r.Sessions))
			obs := make([]h.Obs, len(r.Sessions))
			var wg sync.WaitGroup
			for i, c := range r.Sessions {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = session(c, &obs[i])
				}()
			}
			wg.Wait()
			for i := range obs {
				o.Merge(&obs[i])
				if errs[i] != nil {
					return fmt.Errorf("session %d: %w", i, errs[i])
				}
			}
			return nil
		}})
}
