package h

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Apply runs one non-session operation against a store and its record.
func Apply(s storage.Storage, m *Model, o Op) error {
	switch o.K {
	case "save", "bulk":
		saves := o.Saves()
		for i, sv := range saves {
			s.SaveOrUpdate(sv.Doc, sv.F())
			m.Add(sv)
			if o.Bulk != nil && o.Bulk.Every > 0 {
				Sleep(time.Duration(o.Bulk.Every) * time.Millisecond)
				back := saves[i/2]
				if err := m.CompareFields(s, []string{sv.Doc, back.Doc}, back.Field); err != nil {
					return fmt.Errorf("save %d: %w", i, err)
				}
			}
		}
	case "index":
		sv := *o.Save
		sv.Only = "disk"
		if _, ok := s.(*storage.Memory); ok {
			sv.Only = "memory"
		}
		s.UpdateIndex(sv.Doc, sv.F())
		m.Add(sv)
	case "sleep":
		Sleep(o.Dur())
	case "fields":
		return m.CompareFields(s, o.Docs, o.Field)
	case "docs":
		for _, t := range o.Terms {
			if err := m.ComparePostings(s, o.Field, t); err != nil {
				return err
			}
		}
	case "df":
		return m.CompareDF(s, o.Field, o.Terms)
	case "stats":
		if g := s.GetFieldSize(o.Field); g != m.Size[o.Field] {
			return fmt.Errorf("GetFieldSize(%q) = %d, want %d", o.Field, g, m.Size[o.Field])
		}
		if g := s.GetFieldLength(o.Field); g != m.Length[o.Field] {
			return fmt.Errorf("GetFieldLength(%q) = %d, want %d", o.Field, g, m.Length[o.Field])
		}
	case "search":
		return DoSearch(s, m, o.Qs)
	}
	return nil
}

// DoSearch searches and compares with the reference.
func DoSearch(s storage.Storage, m *Model, qs []Query) error {
	arg := ToQueries(qs)
	got := search.NewStandard(index.NewIndex(s)).Search(arg)
	if !reflect.DeepEqual(arg, ToQueries(qs)) {
		return fmt.Errorf("search changed the caller's query: %v, was %v", arg, qs)
	}
	if err := CheckRanking(got, m.Search(qs)); err != nil {
		return fmt.Errorf("search %v: %w", qs, err)
	}
	return nil
}

// DiskSessions runs a history against a disk store in dir. A reopen waits the settle time, ends the session and
// opens the directory in a new one; each session starts and ends with a full comparison.
func DiskSessions(t *testing.T, dir string, h Hist, fullEachStep bool) error {
	return DiskSessionsAt(t, func(int) string { return dir }, h, fullEachStep)
}

// DiskSessionsAt is DiskSessions with a path for each session.
func DiskSessionsAt(t *testing.T, path func(session int) string, h Hist, fullEachStep bool) error {
	return DiskSessionsFrom(t, NewModel(), path, h, fullEachStep, nil)
}

// DiskSessionsFrom is DiskSessionsAt for a folder that holds the record m already; closed, if there is one, judges the
// folder after a session.
func DiskSessionsFrom(t *testing.T, m *Model, path func(session int) string, h Hist, fullEachStep bool, closed func(*Model) error) error {
	i, cache, first := 0, h.Cache, true
	for sess := 0; first || i < len(h.Ops); sess++ {
		first = false
		dir := path(sess)
		err := InSession(t, func() error {
			s, err := storage.NewDiskStore(dir, cache)
			if err != nil {
				return fmt.Errorf("open: %w", err)
			}
			if err := m.Compare(s); err != nil {
				return fmt.Errorf("after opening session %d: %w", sess, err)
			}
			for ; i < len(h.Ops); i++ {
				o := h.Ops[i]
				if o.K == "reopen" {
					if err := m.Compare(s); err != nil {
						return fmt.Errorf("before op %d (reopen): %w", i, err)
					}
					Sleep(Settle)
					cache = o.Cache
					i++
					return nil
				}
				if err := Apply(s, m, o); err != nil {
					return fmt.Errorf("op %d (%s): %w", i, o.K, err)
				}
				if fullEachStep {
					if err := m.Compare(s); err != nil {
						return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
					}
				}
			}
			if err := m.Compare(s); err != nil {
				return fmt.Errorf("at the end of session %d: %w", sess, err)
			}
			return nil
		})
		if err == nil && closed != nil && i > 0 && h.Ops[i-1].K == "reopen" {
			if err = closed(m); err != nil {
				err = fmt.Errorf("the folder that session %d left: %w", sess, err)
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}
