package ai

import (
	"go/types"
	"sort"

	"verif/checker/num"
)

// Merge adds to a state another one, which describes the same situation from
// another point of view.  What was made after the mark is renamed, except that
// objects may be declared to be the same in both.
type Merge struct {
	in    *Interp
	A, B  *State
	mark  Mark
	objs  map[ObjID]ObjID // of B -> of the result
	pairs map[ObjID]ObjID
	syms  map[num.Sym]num.Sym
	terms map[*Term]*Term
	names string // prefix of the names of renamed objects
}

// NewMerge starts merging b into a (a is modified).  Objects of b paired with
// objects of a are the same.
func (in *Interp) NewMerge(a, b *State, mark Mark, pairs map[ObjID]ObjID, prefix string) *Merge {
	m := &Merge{in: in, A: a, B: b, mark: mark, objs: map[ObjID]ObjID{}, syms: map[num.Sym]num.Sym{}, terms: map[*Term]*Term{}, names: prefix}
	m.pairs = cpMap(pairs)
	for x, y := range pairs {
		m.objs[x] = y
	}
	return m
}

func (m *Merge) sym(s num.Sym) num.Sym {
	if s <= m.mark.Sym {
		return s
	}
	if r, ok := m.syms[s]; ok {
		return r
	}
	if t, ok := symTerm[s]; ok {
		m.syms[s] = s
		r := s
		if n := m.Term(t); n != t {
			r = symOf(n)
		}
		m.syms[s] = r
		return r
	}
	r := num.Fresh("m")
	m.syms[s] = r
	return r
}

// Lin renames a linear expression.
func (m *Merge) Lin(l num.Lin) num.Lin {
	r := num.Const(l.K)
	for _, t := range l.T {
		s := t.S
		if s != 0 {
			s = m.sym(s)
		}
		r = r.Add(num.Var(s).Mul(t.C))
	}
	return r
}

// Term renames a term.
func (m *Merge) Term(t *Term) *Term {
	if t.ID <= m.mark.Term {
		return t
	}
	if r, ok := m.terms[t]; ok {
		return r
	}
	if t.Op == "new" {
		name := "m"
		r := FreshTerm(name, t.T)
		m.terms[t] = r
		return r
	}
	var as []*Term
	same := true
	for _, a := range t.Args {
		n := m.Term(a)
		same = same && n == a
		as = append(as, n)
	}
	var ls []num.Lin
	for _, l := range t.L {
		n := m.Lin(l)
		same = same && n.Equal(l)
		ls = append(ls, n)
	}
	r := t
	if !same {
		r = MkTerm(t.Op, t.S, as, ls...)
		if t.Op == "eq" && len(as) == 2 {
			r = eqAtom(as[0], as[1])
		}
		if r.T == nil {
			r.T = t.T
		}
	}
	m.terms[t] = r
	return r
}

func (m *Merge) form(f *Form) *Form {
	if f == nil {
		return nil
	}
	switch f.Op {
	case "t", "f":
		return f
	case "le":
		return Le0(m.Lin(f.L))
	case "eq":
		return EqL(m.Lin(f.L), num.Const(0))
	case "atom":
		return Atom(m.Term(f.A))
	case "not":
		return Not(m.form(f.X))
	case "and":
		return And(m.form(f.X), m.form(f.Y))
	}
	return Or(m.form(f.X), m.form(f.Y))
}

// Obj renames an object.
func (m *Merge) Obj(id ObjID) ObjID {
	if id <= m.mark.Obj {
		return id
	}
	if r, ok := m.objs[id]; ok {
		return r
	}
	r := NewObjID()
	m.objs[id] = r
	return r
}

// Val renames a value.
func (m *Merge) Val(v Val) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{m.Lin(x.L)}
	case VBool:
		return VBool{m.form(x.F)}
	case VRef:
		return VRef{m.Term(x.T)}
	case VPtr:
		p := VPtr{Obj: m.Obj(x.Obj), Path: x.Path}
		if x.Elem != nil {
			l := m.Lin(*x.Elem)
			p.Elem = &l
		}
		return p
	case VIface:
		return VIface{x.T, m.Val(x.V)}
	case VSlice:
		s := VSlice{Off: m.Lin(x.Off), Len: m.Lin(x.Len), Cap: m.Lin(x.Cap), Nil: m.form(x.Nil)}
		if x.Arr != 0 {
			s.Arr = m.Obj(x.Arr)
		}
		return s
	case VStruct:
		s := VStruct{}
		for _, f := range x.F {
			s.F = append(s.F, m.Val(f))
		}
		return s
	case VFunc:
		f := VFunc{Fn: x.Fn}
		for _, b := range x.Bind {
			f.Bind = append(f.Bind, m.Val(b))
		}
		return f
	}
	return v
}

// Run adds everything b says, except about the objects that are paired and the
// ghosts.  It returns false if that contradicts a.
func (m *Merge) Run() bool {
	a, b := m.A, m.B
	paired := map[ObjID]bool{}
	for x := range m.objs {
		paired[x] = true
	}
	// objects behind globals and opaque pointers
	for g, id := range b.Glob {
		if x, ok := a.Glob[g]; ok {
			if id != x {
				m.objs[id] = x
			}
			paired[id] = true
		} else {
			a.Glob[g] = m.Obj(id)
		}
	}
	var ts []*Term
	for t := range b.PtrObj {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		id := b.PtrObj[t]
		r := m.Term(t)
		if x, ok := a.PtrObj[r]; ok {
			m.objs[id] = x
			paired[id] = true
		} else {
			a.PtrObj[r] = m.Obj(id)
		}
	}
	for _, id := range objIDs(b) {
		if paired[id] || id <= m.mark.Obj && a.Heap[id] != nil {
			continue
		}
		o := b.Heap[id]
		n := &Obj{ID: m.Obj(id), Kind: o.Kind, Type: o.Type, Name: m.names + o.Name, Site: o.Site, Fresh: o.Fresh}
		if o.Root != nil {
			n.Root = m.Term(o.Root)
		}
		switch o.Kind {
		case "cells":
			n.Cells = map[string]Val{}
			for k, v := range o.Cells {
				n.Cells[k] = m.Val(v)
			}
		case "array":
			n.ALen = m.Lin(o.ALen)
			for _, s := range o.Segs {
				x := Seg{Lo: m.Lin(s.Lo), Hi: m.Lin(s.Hi), D: m.Lin(s.D)}
				if s.Src != nil {
					x.Src = m.Term(s.Src)
				}
				if s.V != nil {
					x.V = m.Val(s.V)
				}
				n.Segs = append(n.Segs, x)
			}
		case "map":
			n.Map = m.mapData(o.Map)
		case "iter":
			it := &IterData{Map: m.Obj(o.Iter.Map), Any: o.Iter.Any}
			for _, v := range o.Iter.Visited {
				it.Visited = append(it.Visited, m.Val(v))
			}
			n.Iter = it
		}
		a.Heap[n.ID] = n
	}
	// numbers
	eqs, ineqs := b.Num.Constraints()
	for _, e := range eqs {
		a.Num.AddEq0(m.Lin(e))
	}
	for _, e := range ineqs {
		a.Num.AddLe0(m.Lin(e))
	}
	if a.Num.Bot() || !a.Num.Feasible() {
		return false
	}
	// equalities and facts
	var rs []*Term
	for t := range b.Rep {
		rs = append(rs, t)
	}
	sort.Slice(rs, func(x, y int) bool { return rs[x].ID < rs[y].ID })
	for _, t := range rs {
		if !a.merge(m.Term(t), m.Term(b.Find(t))) {
			return false
		}
	}
	var fs []*Term
	for f := range b.Facts {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(x, y int) bool { return fs[x].ID < fs[y].ID })
	for _, f := range fs {
		g := a.canonAtom(m.Term(f))
		pol := b.Facts[f]
		if d := a.decideAtom(g); d != 0 {
			if (d > 0) != pol {
				return false
			}
			continue
		}
		if g.T == nil {
			g.T = f.T
		}
		if !a.assumeAtom(g, pol) {
			return false
		}
	}
	return true
}

func (m *Merge) mapData(d *MapData) *MapData {
	n := &MapData{Open: d.Open, Dirty: d.Dirty, Size: m.Lin(d.Size), Since: objN}
	if d.Root != nil {
		n.Root = m.Term(d.Root)
	}
	for _, e := range d.Ents {
		n.Ents = append(n.Ents, Ent{K: m.Val(e.K), P: m.form(e.P), V: m.Val(e.V), Mod: e.Mod, Generic: e.Generic})
	}
	return n
}

// Same pairs what is reached from a in st with what is reached from b in o;
// it returns false if they cannot be the same.
func (in *Interp) Same(st, o *State, mark Mark, a, b Val, pairs map[ObjID]ObjID) bool {
	a, b = st.Canon(a), o.Canon(b)
	pair := func(x, y ObjID) bool {
		if x <= mark.Obj || y <= mark.Obj {
			return x == y
		}
		if z, ok := pairs[y]; ok {
			return z == x
		}
		pairs[y] = x
		p, q := st.Heap[x], o.Heap[y]
		if p == nil || q == nil || p.Kind != q.Kind {
			return p == nil || q == nil
		}
		if p.Kind == "cells" {
			if !types.Identical(p.Type, q.Type) {
				return false
			}
			for _, k := range Leaves(p.Type, "") {
				if !in.Same(st, o, mark, st.Cell(p, k), o.Cell(q, k), pairs) {
					return false
				}
			}
		}
		return true
	}
	switch x := a.(type) {
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return pair(x.Obj, y.Obj)
		case VNil:
			return false
		}
	case VNil:
		switch y := b.(type) {
		case VPtr:
			return false
		case VSlice:
			return o.Num.Le(y.Len, num.Const(0)) || o.Num.Feasible()
		case VIface:
			return false
		case VRef:
			return o.decideAtom(isNilAtom(y.T)) >= 0
		}
	case VSlice:
		if y, ok := b.(VSlice); ok && x.Arr != 0 && y.Arr != 0 {
			return pair(x.Arr, y.Arr)
		}
	case VIface:
		switch y := b.(type) {
		case VIface:
			return types.Identical(x.T, y.T) && in.Same(st, o, mark, x.V, y.V, pairs)
		case VNil:
			return false
		}
	case VRef:
		if _, ok := b.(VNil); ok {
			return st.decideAtom(isNilAtom(x.T)) >= 0
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !in.Same(st, o, mark, x.F[i], y.F[i], pairs) {
					return false
				}
			}
		}
	}
	return true
}

// Equate assumes that two values are the same.
func (st *State) Equate(a, b Val) []*State {
	a, b = st.Canon(a), st.Canon(b)
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			st.Num.AddEq(x.L, y.L)
			if !st.Num.Feasible() {
				return nil
			}
			return []*State{st}
		}
	case VSlice:
		switch y := b.(type) {
		case VSlice:
			st.Num.AddEq(x.Off, y.Off)
			st.Num.AddEq(x.Len, y.Len)
			st.Num.AddEq(x.Cap, y.Cap)
		case VNil:
			st.Num.AddEq(x.Len, num.Const(0))
		}
		if !st.Num.Feasible() {
			return nil
		}
		return []*State{st}
	case VNil:
		if y, ok := b.(VSlice); ok {
			return st.Equate(y, a)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			work := []*State{st}
			for i := range x.F {
				var nx []*State
				for _, s := range work {
					nx = append(nx, s.Equate(x.F[i], y.F[i])...)
				}
				work = nx
			}
			return work
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if !types.Identical(x.T, y.T) {
				return nil
			}
			return st.Equate(x.V, y.V)
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if x.Obj != y.Obj || x.Path != y.Path {
				return nil
			}
			return []*State{st}
		}
		if _, ok := b.(VNil); ok {
			return nil
		}
		return []*State{st}
	case VLock, VFunc, VBad, nil:
		return []*State{st}
	}
	switch b.(type) {
	case VLock, VFunc, VBad, nil:
		return []*State{st}
	}
	return st.Assume(st.EqForm(a, b), true)
}

// Unify finishes a merge: the paired objects have the same contents.
func (m *Merge) Unify() []*State {
	work := []*State{m.A}
	var ids []ObjID
	for id := range m.pairs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	step := func(a, b Val) {
		var nx []*State
		for _, s := range work {
			nx = append(nx, s.Equate(a, b)...)
		}
		work = nx
	}
	for _, id := range ids {
		if len(work) == 0 {
			return nil
		}
		p, q := m.A.Heap[m.objs[id]], m.B.Heap[id]
		if p == nil || q == nil || p.Kind != q.Kind {
			continue
		}
		switch p.Kind {
		case "cells":
			for _, k := range Leaves(p.Type, "") {
				step(work0(work).Cell(p, k), m.Val(m.B.Cell(q, k)))
				if len(work) == 0 {
					return nil
				}
			}
		case "array":
			step(VInt{p.ALen}, VInt{m.Lin(q.ALen)})
		case "map":
			var nx []*State
			for _, s := range work {
				s.Num.AddEq(p.Map.Size, m.Lin(q.Map.Size))
				n := s.Mut(p.ID)
				n.Map.Open = p.Map.Open && q.Map.Open
				n.Map.Since = objN
				for _, e := range q.Map.Ents {
					k := m.Val(e.K)
					dup := false
					for _, f := range p.Map.Ents {
						dup = dup || s.Decide(s.EqForm(f.K, k)) > 0
					}
					if !dup {
						n.Map.Ents = append(n.Map.Ents, Ent{K: k, P: m.form(e.P), V: m.Val(e.V), Mod: e.Mod})
					}
				}
				s.mapSize(p.ID)
				if !s.Bad() && s.Num.Feasible() {
					nx = append(nx, s)
				}
			}
			work = nx
		}
	}
	return work
}

func work0(w []*State) *State { return w[0] }
