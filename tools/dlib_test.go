package semnet

import (
	"errors"
	"sort"
	"testing"

	"github.com/mem-memov/clew"
)

// store counts the operations of a clew graph and lets chosen ones fail without effect.
type store struct {
	g      *clew.Graph
	ops    int
	writes int
	nodes  []uint
	failAt int
	failed bool
}

var errInjected = errors.New("injected failure")

func newStore() *store { return &store{g: clew.NewGraph(clew.NewSliceStorage())} }

func (s *store) arm(k int) { s.ops, s.failAt, s.failed = 0, k, false }

func (s *store) step(write bool) error {
	s.ops++
	if write {
		s.writes++
	}
	if s.failAt > 0 && s.ops == s.failAt {
		s.failed = true
		return errInjected
	}
	return nil
}
func (s *store) Has(n uint) (bool, error) {
	if err := s.step(false); err != nil {
		return false, err
	}
	return s.g.Has(n)
}
func (s *store) Create() (uint, error) {
	if err := s.step(true); err != nil {
		return 0, err
	}
	n, err := s.g.Create()
	if err == nil {
		s.nodes = append(s.nodes, n)
	}
	return n, err
}
func (s *store) ReadSources(n uint) ([]uint, error) {
	if err := s.step(false); err != nil {
		return nil, err
	}
	return s.g.ReadSources(n)
}
func (s *store) ReadTargets(n uint) ([]uint, error) {
	if err := s.step(false); err != nil {
		return nil, err
	}
	return s.g.ReadTargets(n)
}
func (s *store) SetReference(n, r uint) error {
	if err := s.step(true); err != nil {
		return err
	}
	return s.g.SetReference(n, r)
}
func (s *store) GetReference(n uint) (uint, uint, error) {
	if err := s.step(false); err != nil {
		return 0, 0, err
	}
	return s.g.GetReference(n)
}
func (s *store) Connect(n, t uint) error {
	if err := s.step(true); err != nil {
		return err
	}
	return s.g.Connect(n, t)
}
func (s *store) Disconnect(n, t uint) error {
	if err := s.step(true); err != nil {
		return err
	}
	return s.g.Disconnect(n, t)
}
func (s *store) Delete(n uint) error {
	if err := s.step(true); err != nil {
		return err
	}
	return s.g.Delete(n)
}

// members returns the nodes the library made that lead only to the class node c.
func (s *store) members(c uint) []uint {
	r := []uint{}
	for _, n := range s.nodes {
		ts, err := s.g.ReadTargets(n)
		if err == nil && len(ts) == 1 && ts[0] == c && n > 8 {
			r = append(r, n)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("unexpected error: %v", err)
	}
}

func texts(t *testing.T, r interface {
	GetObjectAndProperty() (string, string, error)
}, o, p string) {
	t.Helper()
	a, b, err := r.GetObjectAndProperty()
	if err != nil || a != o || b != p {
		t.Fatalf("want %q %q, got %q %q %v", o, p, a, b, err)
	}
}
