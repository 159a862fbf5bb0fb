// Package h holds what all checks share: the property runner (generation, shrinking, replay, counting),
// the fake-clock bubble, the reference models and the generators.
package h

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one executable statement of a property: a generator of cases and a check of one case.
// A case is plain data (it round-trips through JSON), so a case is its own replay file.
type Sub[C any] struct {
	Name     string
	Quick    int                 // cases in the quick tier
	Thorough int                 // cases in the thorough tier
	Gen      func(*rapid.T) C    // draws one case
	Fixed    []C                 // cases always run first (regressions, known findings)
	Check    func(C, *Obs) error // nil: the property held on this case
	Slow     bool                // cases of this sub-check take long: four times the time before one counts as hung
}

// Obs collects what one case turned out to be.
type Obs struct {
	nontrivial bool
	classes    []string
	known      []string
	evals      int
}

// Nontrivial marks the case as non-trivial by the rule stated in check.py.
func (o *Obs) Nontrivial(b bool) {
	if b {
		o.nontrivial = true
	}
}

// Class counts the case in a named class.
func (o *Obs) Class(b bool, name string) {
	if b {
		o.classes = append(o.classes, name)
	}
}

// Known reports a defect that the known-findings file lists under sig.
func (o *Obs) Known(sig string) { o.known = append(o.known, sig) }

// Evals adds inner evaluations (crash points tried, say) of this case.
func (o *Obs) Evals(n int) { o.evals += n }

type stats struct {
	Sub         string            `json:"sub"`
	Evaluations int               `json:"evaluations"`
	Inner       int               `json:"inner"`
	Nontrivial  int               `json:"nontrivial"`
	Distinct    int               `json:"distinct"`
	Classes     map[string]int    `json:"classes"`
	Known       map[string]int    `json:"known"`
	KnownCase   map[string]string `json:"known_case"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      string            `json:"failed"`
	Done        bool              `json:"done"`
	WallS       float64           `json:"wall_s"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

var outDir = os.Getenv("VERIF_OUT")
var mu sync.Mutex

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Property is the id of the property under check.
func Property() string { return os.Getenv("VERIF_PROPERTY") }

func seedFor(name string) uint64 {
	n := fnv.New64a()
	fmt.Fprintf(n, "%s|%s|%s", os.Getenv("VERIF_SEED"), name, os.Getenv("VERIF_SHARD"))
	s := n.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

func writeFile(name string, v any) {
	if outDir == "" {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	// past the hooks of package os: the case that is reported may hold their lock
	tmp := filepath.Join(outDir, "."+name)
	fd, err := syscall.Open(tmp, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC|syscall.O_CLOEXEC, 0o644)
	if err != nil {
		panic(err)
	}
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic(err)
		}
		b = b[n:]
	}
	syscall.Close(fd)
	if err := syscall.Rename(tmp, filepath.Join(outDir, name)); err != nil {
		panic(err)
	}
}

// HangLimit is the real time after which one case counts as hung. The runner then replays it in a fresh
// process before it believes it.
var HangLimit = 120 * time.Second

func guard[C any](s *Sub[C], c C, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.Check(c, o)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i, l := range lines {
		if strings.Contains(l, "goirlib") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(lines[i]))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

// Run decides one sub-check: replay of a given case, or the fixed cases and then generated ones.
func Run[C any](t *testing.T, s Sub[C]) {
	if t.Failed() {
		return // an earlier sub-check has its case already
	}
	t.Run(s.Name, func(t *testing.T) {
		st := &stats{Sub: s.Name, Classes: map[string]int{}, Known: map[string]int{}, KnownCase: map[string]string{}}
		distinct := map[[16]byte]bool{}
		start := time.Now()
		var lastFail *Replay
		one := func(c C) error {
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			cur := &Replay{Property: Property(), Test: t.Name(), Sub: s.Name, Case: raw}
			writeFile("current.json", cur)
			o := &Obs{}
			limit := HangLimit
			if s.Slow {
				limit *= 4
			}
			timer := time.AfterFunc(limit, func() {
				cur.Message = fmt.Sprintf("case did not finish within %v of real time", limit)
				writeFile("hang.json", cur)
				RealExit(9)
			})
			err = guard(&s, c, o)
			timer.Stop()
			st.Evaluations++
			st.Inner += o.evals
			if o.nontrivial {
				st.Nontrivial++
				h := sha256.Sum256(raw)
				distinct[[16]byte(h[:16])] = true
				if len(st.Samples) < 3 && len(raw) < 3000 {
					st.Samples = append(st.Samples, raw)
				}
			}
			for _, k := range o.classes {
				st.Classes[k]++
			}
			for _, k := range o.known {
				st.Known[k]++
				if _, ok := st.KnownCase[k]; !ok {
					st.KnownCase[k] = string(raw)
				}
			}
			if err != nil {
				cur.Message = err.Error()
				lastFail = cur
			}
			return err
		}
		finish := func() {
			st.Distinct = len(distinct)
			st.WallS = time.Since(start).Seconds()
			if lastFail != nil {
				st.Failed = lastFail.Message
				writeFile("fail-"+s.Name+".json", lastFail)
			}
			writeFile("stats-"+s.Name+".json", st)
		}
		defer finish()

		if f := os.Getenv("VERIF_REPLAY"); f != "" {
			b, err := os.ReadFile(f)
			if err != nil {
				t.Fatal(err)
			}
			var r Replay
			if err := json.Unmarshal(b, &r); err != nil {
				t.Fatal(err)
			}
			if r.Sub != s.Name {
				t.Skip("not this sub-check")
			}
			var c C
			if err := json.Unmarshal(r.Case, &c); err != nil {
				t.Fatal(err)
			}
			n, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_TIMES"))
			for i := 0; i <= n; i++ {
				if err := one(c); err != nil {
					t.Fatal(err)
				}
			}
			st.Done = true
			return
		}

		shards, shard := envInt("VERIF_SHARDS", 1), envInt("VERIF_SHARD", 0)
		for _, c := range s.Fixed {
			if shard != 0 {
				break
			}
			if err := one(c); err != nil {
				t.Fatal(err)
			}
		}
		n := s.Quick
		if Thorough() {
			n = s.Thorough
		}
		if v := os.Getenv("VERIF_SCALE"); v != "" {
			f, _ := strconv.ParseFloat(v, 64)
			n = int(float64(n) * f)
		}
		if n > 0 && n < shards && shard >= n {
			n = 0
		} else if n > 0 {
			n = (n + shards - 1) / shards
		}
		if n > 0 && s.Gen != nil {
			flag.Set("rapid.seed", strconv.FormatUint(seedFor(s.Name), 10))
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.nofailfile", "true")
			flag.Set("rapid.shrinktime", "20s")
			rapid.Check(t, func(rt *rapid.T) {
				c := s.Gen(rt)
				if err := one(c); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		}
		st.Done = !t.Failed()
	})
}

// Main runs the tests with the code under test silenced and process exits observed.
func Main(m *testing.M) {
	flag.Parse()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stdout = null
	}
	code := m.Run()
	writeFile("end.json", code)
	RealExit(code)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Merge adds what a part of the case turned out to be.
func (o *Obs) Merge(p *Obs) {
	o.nontrivial = o.nontrivial || p.nontrivial
	o.classes = append(o.classes, p.classes...)
	o.known = append(o.known, p.known...)
	o.evals += p.evals
}
