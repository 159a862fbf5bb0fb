package h

import (
	"io/fs"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Fault lets file operations fail: of those of kind Op ("" for any) whose path contains Path, Skip succeed, then
// Count fail with Errno. A failing write leaves Part of its bytes (0..100 percent) in the file.
type Fault struct {
	Op    string
	Path  string
	Skip  int
	Count int
	Errno int
	Part  int `json:",omitempty"`
}

// Faults injects failures into the file operations below a folder.
type Faults struct {
	mu    sync.Mutex
	dir   string
	plan  []Fault
	seen  []int
	dead  bool
	First time.Time // time of the first failure
	Last  time.Time
	N     int
	Log   []string
}

// Inject starts injecting. Only one Faults is active at a time.
func Inject(dir string, plan []Fault) *Faults {
	f := &Faults{dir: dir, plan: plan, seen: make([]int, len(plan))}
	f.hook(func(op, a string, data []byte) error {
		f.mu.Lock()
		if err := f.fail(op, a, data); err != nil {
			f.mu.Unlock()
			return err
		}
		return nil
	}, f.mu.Unlock)
	return f
}

func (f *Faults) hook(fn func(op, a string, data []byte) error, done func()) {
	os.VerifHook = func(op, a, b string, data []byte) (func(), error) {
		if !Below(f.dir, a) {
			return nil, nil // the log, say, whose lock the writer holds
		}
		die()
		if err := fn(op, a, data); err != nil {
			return nil, err
		}
		return done, nil
	}
	os.VerifReadHook = func(op, a string) error {
		if !Below(f.dir, a) {
			return nil
		}
		die()
		err := fn(op, a, nil)
		if err == nil {
			done()
		}
		return err
	}
}

// Stop ends the injection. What is still running of a session that is over does no file operation any more.
func (f *Faults) Stop() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.hook(func(string, string, []byte) error { return nil }, func() {})
	f.dead = true
}

// Count is the number of failures so far.
func (f *Faults) Count() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.N
}

func (f *Faults) fail(op, path string, data []byte) error {
	if f.dead {
		f.mu.Unlock()
		<-gone
	}
	for i, p := range f.plan {
		if p.Op != "" && p.Op != op || !strings.Contains(strings.TrimPrefix(path, f.dir), p.Path) {
			continue
		}
		f.seen[i]++
		if f.seen[i] <= p.Skip || f.seen[i] > p.Skip+p.Count {
			continue
		}
		f.Last = time.Now()
		if f.N == 0 {
			f.First = f.Last
		}
		f.N++
		if len(f.Log) < 20 {
			f.Log = append(f.Log, op+" "+strings.Replace(path, f.dir, "ROOT", 1))
		}
		if op == "write" && p.Part > 0 {
			if fd, err := syscall.Open(path, syscall.O_WRONLY|syscall.O_APPEND, 0); err == nil {
				syscall.Write(fd, data[:len(data)*p.Part/100])
				syscall.Close(fd)
			}
		}
		return &fs.PathError{Op: op, Path: path, Err: syscall.Errno(p.Errno)}
	}
	return nil
}

// Errnos are the failures that are injected: full disk, input/output error, no permission, too many open files,
// read-only file system, quota.
var Errnos = []int{int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EACCES), int(syscall.EMFILE), int(syscall.EROFS), int(syscall.EDQUOT)}

// FileOps lets harnesses built with -race see file operations: it sets the hooks once, before the code under test runs.
type FileOps struct {
	fn atomic.Pointer[func(op, path string)]
}

// WatchFileOps is called before anything of the code under test runs.
func WatchFileOps() *FileOps {
	w := &FileOps{}
	call := func(op, path string) {
		die()
		if f := w.fn.Load(); f != nil {
			(*f)(op, path)
		}
	}
	os.VerifHook = func(op, a, b string, data []byte) (func(), error) { call(op, a); return nil, nil }
	os.VerifReadHook = func(op, a string) error { call(op, a); return nil }
	return w
}

// On calls fn before every file operation, reads included, below a folder, until Off.
func (w *FileOps) On(dir string, fn func(op, path string)) {
	f := func(op, path string) {
		if Below(dir, path) {
			fn(op, path)
		}
	}
	w.fn.Store(&f)
}

// Off ends it.
func (w *FileOps) Off() { w.fn.Store(nil) }
