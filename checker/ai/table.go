package ai

import (
	"verif/checker/num"

	"fmt"
	"sort"
)

// Entry is one abstract state of a table, with the values that matter.
type Entry struct {
	St    *State
	Roots []Val
	Joins int
	Dirty bool
	Label string
	N     int
	Key   string
}

// Table is a set of abstract states closed under joins: adding a state joins
// it into an entry of the same shape, or makes a new entry.
type Table struct {
	In      *Interp
	Mark    Mark
	Entries []*Entry
	Max     int
	Widen   int
	Log     func(string)
	Key     func(*State, []Val) string // states with different keys are kept apart
	Base    []num.Lin                  // holds in all states
	Fixed   bool                       // the numeric part is independent of the order of joins
}

// NewTable makes a table for states that descend from what exists now.
func (in *Interp) NewTable() *Table { return &Table{In: in, Mark: MarkNow(), Max: 400, Widen: 3} }

// From makes the constraints of st, from which all states descend, part of
// every entry.
func (t *Table) From(st *State) {
	e, i := st.Num.Constraints()
	t.Base = append([]num.Lin(nil), i...)
	for _, l := range e {
		t.Base = append(t.Base, l, l.Mul(-1))
	}
}

// Next returns an entry that has not been processed since it changed.
func (t *Table) Next() *Entry {
	for _, e := range t.Entries {
		if e.Dirty {
			e.Dirty = false
			return e
		}
	}
	return nil
}

// ForkBools decides all conditions stored in objects and ghosts.
func (in *Interp) ForkBools(st *State, mark Mark) []*State {
	work := []*State{st}
	fork := func(s *State, v Val) []*State {
		b, ok := s.Canon(v).(VBool)
		if !ok || b.F.Op == "t" || b.F.Op == "f" {
			return []*State{s}
		}
		if b.F.Op == "atom" && b.F.A.ID <= mark.Term {
			return []*State{s}
		}
		c := s.Clone()
		return append(s.Assume(b.F, true), c.Assume(b.F, false)...)
	}
	for _, id := range objIDs(st) {
		var ks []string
		for k, c := range st.Heap[id].Cells {
			if _, ok := c.(VBool); ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			var nx []*State
			for _, s := range work {
				nx = append(nx, fork(s, s.Heap[id].Cells[k])...)
			}
			work = nx
		}
	}
	var ks []string
	for k, c := range st.Ghost {
		if _, ok := c.(VBool); ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		var nx []*State
		for _, s := range work {
			nx = append(nx, fork(s, s.Ghost[k])...)
		}
		work = nx
	}
	return work
}

// Reduce drops everything that cannot be reached from roots, ghosts or objects
// made before mark.
func (in *Interp) Reduce(st *State, roots []Val, mark Mark, fixed bool, base []num.Lin) (*State, []Val) {
	j := in.NewJoin(st, st, mark, false)
	j.fixed, j.base = fixed, base
	j.reduce = true
	var rs []Val
	for _, r := range roots {
		rs = append(rs, j.Val(r, r))
	}
	j.State()
	c, ok := j.Finish()
	if !ok {
		panic(TooHard{"cannot reduce a state: " + j.Fail})
	}
	return c, rs
}

// Add adds a state; it returns false if it was already covered.
func (t *Table) Add(st *State, roots []Val, label string) bool {
	if st.Bad() || !st.Num.Feasible() {
		return false
	}
	any := false
	for _, s := range t.In.ForkBools(st.Clone(), t.Mark) {
		if s.Num.Feasible() && t.add1(s, roots, label) {
			any = true
		}
	}
	return any
}

func (t *Table) add1(st *State, roots []Val, label string) bool {
	var why []string
	key := ""
	if t.Key != nil {
		key = t.Key(st, roots)
	}
	for _, e := range t.Entries {
		if e.Key != key {
			why = append(why, "key "+key+" "+e.Key)
			continue
		}
		j := t.In.NewJoin(e.St, st, t.Mark, e.Joins >= t.Widen)
		j.fixed, j.base = t.Fixed, t.Base
		var rs []Val
		for i := range roots {
			rs = append(rs, j.Val(e.Roots[i], roots[i]))
		}
		j.State()
		c, ok := j.Finish()
		if !ok {
			why = append(why, j.Fail)
			continue
		}
		if j.Changed == "" {
			return false
		}
		if t.Log != nil {
			t.Log(fmt.Sprintf("join %d into entry %d: %s", e.Joins, e.N, j.Changed))
		}
		e.Joins++
		if e.Joins > 60 {
			panic(TooHard{"class invariant does not stabilise: " + j.Changed})
		}
		e.St, e.Roots, e.Dirty = c, rs, true
		return true
	}
	if len(t.Entries) >= t.Max {
		panic(TooHard{fmt.Sprintf("too many abstract states: %v", why[len(why)-1])})
	}
	if t.Log != nil {
		t.Log(fmt.Sprintf("new entry %d from %s: %v", len(t.Entries), label, why))
	}
	c, rs := t.In.Reduce(st, roots, t.Mark, t.Fixed, t.Base)
	t.Entries = append(t.Entries, &Entry{St: c, Roots: rs, Dirty: true, Label: label, N: len(t.Entries), Key: key})
	return true
}
