package h

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

var exitMu sync.Mutex
var gone = make(chan int)
var exitCh chan int // signalled when the code under test calls os.Exit

// FakeLimit is the fake time after which a session's function counts as blocked for ever.
const FakeLimit = 48 * time.Hour

// A session is recognised by its clock: session n starts n nanoseconds after a full millisecond, and everything the
// code under test waits for is a multiple of one.
var sessionMu sync.Mutex
var sessionLast int
var sessionDead []int

func session() int {
	now := time.Now()
	if now.Year() > 2020 {
		return 0 // not in a bubble
	}
	return now.Nanosecond() % 1000000
}

func endSession(id int) {
	sessionMu.Lock()
	defer sessionMu.Unlock()
	sessionDead = append(sessionDead, id)
	if len(sessionDead) > 64 {
		sessionDead = sessionDead[1:]
	}
}

// die stops the caller for good if it is a goroutine of a session that is over.
func die() {
	id := session()
	if id == 0 {
		return
	}
	sessionMu.Lock()
	dead := slices.Contains(sessionDead, id)
	sessionMu.Unlock()
	if dead {
		<-gone
	}
}

func init() {
	os.VerifExit = func(code int) {
		die()
		if id := session(); id > 0 {
			endSession(id)
		}
		exitMu.Lock()
		ch := exitCh
		exitMu.Unlock()
		if ch == nil {
			return
		}
		select {
		case ch <- code:
		default:
		}
		<-gone // outside every bubble: from here on the bubble's clock stands still
	}
}

// RealExit ends the process.
func RealExit(code int) {
	os.VerifExit = nil
	os.Exit(code)
}

// Sleep lets fake time pass and the background work of that time finish. Only inside a session.
func Sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
}

// Settle is the time after which everything saved must be on disk.
const Settle = 20 * time.Second

// InSession runs f as one life of a process using a store: in a synctest bubble with its own fake clock, in which
// the store's background goroutines live. When f returns, the clock of the bubble stops for good, which is what a
// kill at that instant does to the background goroutines. It runs f in a bubble of its own and returns its error; a panic in f, a call of os.Exit by the code
// under test, and a function that blocks for ever (no goroutine can run and only fake time passes) are errors too.
func InSession(t *testing.T, f func() error) error {
	ch := make(chan int, 1)
	sessionMu.Lock()
	sessionLast = sessionLast%900000 + 1
	id := sessionLast
	sessionMu.Unlock()
	defer endSession(id)
	exitMu.Lock()
	exitCh = ch
	exitMu.Unlock()
	defer func() {
		exitMu.Lock()
		exitCh = nil
		exitMu.Unlock()
	}()
	res := make(chan error, 1)
	forever := make(chan int) // made outside the bubble: waiting for it does not let fake time pass
	go synctest.Test(t, func(*testing.T) {
		done := make(chan error, 1)
		go func() {
			var err error
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
				done <- err
				<-forever
			}()
			time.Sleep(time.Duration(id))
			err = f()
			synctest.Wait() // what is already running gets to its next wait; then the clock stops
		}()
		select {
		case err := <-done:
			res <- err
		case <-time.After(FakeLimit):
			res <- fmt.Errorf("blocked for ever: the operation did not complete within %v of fake time", FakeLimit)
		}
		<-forever
	})
	select {
	case err := <-res:
		return err
	case code := <-ch:
		return fmt.Errorf("the code under test ended the process (exit code %d)", code)
	}
}

// FileOp is one mutation of the file system seen below a watched root.
type FileOp struct {
	Op, Path, Path2 string
	Data            []byte
}

// Watch installs fn as observer of every file-system mutation made through package os until the returned
// function is called. fn runs before the operation takes place, and no other operation runs until this one is over;
// an error from fn is returned to the caller instead of doing the operation. fn must not mutate files.
func Watch(fn func(FileOp) error) (stop func()) {
	var one sync.Mutex
	os.VerifHook = func(op, a, b string, data []byte) (func(), error) {
		one.Lock()
		if err := fn(FileOp{op, a, b, data}); err != nil {
			one.Unlock()
			return nil, err
		}
		return one.Unlock, nil
	}
	return func() { os.VerifHook = nil }
}

// Below reports whether path lies in dir (or is dir).
func Below(dir, path string) bool {
	abs, err := filepath.Abs(path)
	if err != nil {
		return false
	}
	return abs == dir || strings.HasPrefix(abs, dir+string(filepath.Separator))
}

// Scratch returns a fresh directory for one case, below the run's scratch directory.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		panic(err)
	}
	return d
}

// Tree reads all files below dir, by relative path.
func Tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info == nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if info.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// Plant writes a tree read by Tree.
func Plant(dir string, tree map[string]string) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(dir, 0o755))
	for _, p := range SortedKeys(tree) {
		if strings.HasSuffix(p, "/") {
			must(os.MkdirAll(filepath.Join(dir, p), 0o755))
		} else {
			must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o755))
			must(os.WriteFile(filepath.Join(dir, p), []byte(tree[p]), 0o644))
		}
	}
}

func (o FileOp) String() string {
	s := o.Op + " " + o.Path
	if o.Path2 != "" {
		s += " -> " + o.Path2
	}
	if o.Op == "write" {
		s += fmt.Sprintf(" (%d bytes)", len(o.Data))
	}
	return s
}
