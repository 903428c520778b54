package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

// Mark separates what existed before a fixpoint computation started from what
// was made during it.
type Mark struct {
	Sym  num.Sym
	Term int
	Obj  ObjID
}

// MarkNow returns the current mark.
func MarkNow() Mark { return Mark{num.Mark(), len(termList), objN} }

// Joiner joins two states.  The caller passes every value that must survive
// through Val; Finish then builds the joined state.
type Joiner struct {
	in      *Interp
	A, B, C *State
	mark    Mark
	weaken  bool
	reduce  bool
	base    []num.Lin
	fixed   bool // keep only equalities and bounds of fixed shapes
	Fail    string
	Changed string // why the result is weaker than A ("" if it is not)

	slots  []num.Sym
	la, lb []num.Lin
	ints   map[string]num.Lin
	exprs  map[string]num.Lin // compound quantities that are the same in both
	pairs  []termPair
	terms  map[[2]*Term]*Term
	images map[*Term]*Term
	ab, ba map[ObjID]ObjID
	safe   map[*Term]bool
	work   []ObjID // objects of A (and, by ab, of B) to be joined
	done   map[ObjID]bool
}

type termPair struct{ a, b, c *Term }

// NewJoin starts joining b into a.  The states are not modified, except that
// lazily made parts may be made.
func (in *Interp) NewJoin(a, b *State, mark Mark, weaken bool) *Joiner {
	c := NewState()
	c.Skolem = a.Skolem
	c.Trace = a.Trace
	return &Joiner{in: in, A: a.Clone(), B: b.Clone(), C: c, mark: mark, weaken: weaken, ints: map[string]num.Lin{}, exprs: map[string]num.Lin{},
		terms: map[[2]*Term]*Term{}, images: map[*Term]*Term{}, ab: map[ObjID]ObjID{}, ba: map[ObjID]ObjID{},
		safe: map[*Term]bool{}, done: map[ObjID]bool{}}
}

func (j *Joiner) fail(f string, a ...interface{}) {
	if j.Fail == "" {
		j.Fail = fmt.Sprintf(f, a...)
	}
}

func (j *Joiner) change(f string, a ...interface{}) {
	if j.Changed == "" {
		j.Changed = fmt.Sprintf(f, a...)
	}
}

func (j *Joiner) common(s num.Sym) bool {
	if s <= j.mark.Sym {
		return true
	}
	if t, ok := symTerm[s]; ok {
		return j.isSafe(t)
	}
	return false
}

func (j *Joiner) linCommon(l num.Lin) bool {
	for _, t := range l.T {
		if t.S != 0 && !j.common(t.S) {
			return false
		}
	}
	return true
}

// isSafe tells whether t means the same in a, b and the result.
func (j *Joiner) isSafe(t *Term) bool {
	if t.ID <= j.mark.Term {
		return true
	}
	if t.Op == "new" || t.Op == "made" {
		// made meanwhile: only if it is still in use
		return j.images[t] == t
	}
	for _, l := range t.L {
		if !j.linCommon(l) {
			return false
		}
	}
	for _, a := range t.Args {
		if !j.isSafe(a) {
			return false
		}
	}
	return true
}

// Int joins two integers.
func (j *Joiner) Int(a, b num.Lin) num.Lin {
	a, b = j.A.Num.Norm(a), j.B.Num.Norm(b)
	if a.Equal(b) && j.linCommon(a) {
		if len(a.T) > 1 {
			j.exprs[a.Key()] = a
		}
		return a
	}
	k := a.Key() + "|" + b.Key()
	if l, ok := j.ints[k]; ok {
		return l
	}
	neg := func(s *State, l num.Lin) int {
		if s.Num.Lt(l, num.Const(0)) {
			return -1
		}
		if s.Num.Le(num.Const(0), l) {
			return 1
		}
		return 0
	}
	if na, nb := neg(j.A, a), neg(j.B, b); na*nb < 0 {
		j.fail("sign %s / %s", a, b)
		return a
	}
	return j.newSlot(num.Fresh("j"), a, b, k)
}

func (j *Joiner) newSlot(s num.Sym, a, b num.Lin, k string) num.Lin {
	l := num.Var(s)
	j.ints[k] = l
	j.slots = append(j.slots, s)
	j.la = append(j.la, a)
	j.lb = append(j.lb, b)
	return l
}

// Term joins two opaque values.
func (j *Joiner) Term(a, b *Term) *Term {
	a, b = j.A.Find(a), j.B.Find(b)
	if a == b && j.isSafe(a) {
		return a
	}
	k := [2]*Term{a, b}
	if t, ok := j.terms[k]; ok {
		return t
	}
	if a != b {
		if a.Sentinel() && b.Sentinel() || (a.Op == "sentinel") != (b.Op == "sentinel") {
			j.fail("values %s / %s", a, b)
			return a
		}
		na, nb := j.A.decideAtom(isNilAtom(a)), j.B.decideAtom(isNilAtom(b))
		if na*nb < 0 || ((na == 0) != (nb == 0)) {
			j.fail("nilness of %s / %s", a, b)
			return a
		}
	}
	// same constructor: join the parts
	if a.Op == b.Op && a.S == b.S && len(a.Args) == len(b.Args) && len(a.L) == len(b.L) && (len(a.Args) > 0 || len(a.L) > 0) && a.Op != "new" && a.Op != "cat" {
		var as []*Term
		var ls []num.Lin
		for i := range a.Args {
			as = append(as, j.Term(a.Args[i], b.Args[i]))
		}
		for i := range a.L {
			ls = append(ls, j.Int(a.L[i], b.L[i]))
		}
		t := MkTerm(a.Op, a.S, as, ls...)
		if t.T == nil {
			t.T = a.T
		}
		j.terms[k] = t
		j.addPair(a, b, t)
		return t
	}
	var typ types.Type
	if a.T != nil && b.T != nil && types.Identical(a.T, b.T) {
		typ = a.T
	}
	if a == b && a.Op == "new" {
		// made during the fixpoint and still the same
		j.terms[k] = a
		j.addPair(a, b, a)
		return a
	}
	if !(a.Op == "new" && a.ID > j.mark.Term) {
		j.change("value %s / %s", a, b)
	} else if im := j.images[a]; im != nil {
		j.change("value %s joined twice", a)
	}
	t := FreshTerm("j", typ)
	j.terms[k] = t
	j.addPair(a, b, t)
	if isStringTerm(a) || isStringTerm(b) {
		la, lb := j.A.LenOf(a), j.B.LenOf(b)
		s := symOf(MkTerm("len", "", []*Term{t}))
		j.newSlot(s, la, lb, la.Key()+"|"+lb.Key()+"|len"+t.S)
	}
	return t
}

func (j *Joiner) addPair(a, b, c *Term) {
	j.images[a] = c
	j.pairs = append(j.pairs, termPair{a, b, c})
}

func (j *Joiner) boolean(a, b *Form) *Form {
	da, db := j.A.Decide(a), j.B.Decide(b)
	if da != 0 && da == db {
		return B(da > 0)
	}
	if da != db {
		j.fail("condition %s / %s", a, b)
		return a
	}
	if a.Op == "atom" && b.Op == "atom" {
		x, y := j.A.canonAtom(a.A), j.B.canonAtom(b.A)
		if x == y && j.isSafe(x) {
			return Atom(x)
		}
		if x.Op == y.Op && x.S == y.S && len(x.Args) == len(y.Args) && len(x.L) == 0 && len(y.L) == 0 && len(x.Args) > 0 {
			var as []*Term
			for i := range x.Args {
				as = append(as, j.Term(x.Args[i], y.Args[i]))
			}
			t := MkTerm(x.Op, x.S, as)
			if t.T == nil {
				t.T = x.T
			}
			return Atom(t)
		}
		if !(x.Op == "new" && x.ID > j.mark.Term) {
			j.change("condition %s / %s", a, b)
		}
		return Atom(FreshTerm("jc", nil))
	}
	j.change("condition %s / %s", a, b)
	return Atom(FreshTerm("jc", nil))
}

func (j *Joiner) obj(a, b ObjID) ObjID {
	if a == 0 && b == 0 {
		return 0
	}
	if a <= j.mark.Obj || b <= j.mark.Obj {
		if a != b {
			j.fail("object %d / %d", a, b)
			return a
		}
	}
	x, ok := j.ab[a]
	y, ok2 := j.ba[b]
	if (ok && x != b) || (ok2 && y != a) {
		j.fail("aliasing of objects %d / %d", a, b)
		return a
	}
	if !ok {
		j.ab[a] = b
		j.ba[b] = a
		j.work = append(j.work, a)
	}
	return a
}

// Val joins two values.
func (j *Joiner) Val(a, b Val) Val {
	if j.Fail != "" {
		return a
	}
	a, b = j.A.Canon(a), j.B.Canon(b)
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{j.Int(x.L, y.L)}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return VBool{j.boolean(x.F, y.F)}
		}
	case VNil:
		if _, ok := b.(VNil); ok {
			return a
		}
	case VRef:
		if y, ok := b.(VRef); ok {
			return VRef{j.Term(x.T, y.T)}
		}
	case VPtr:
		if y, ok := b.(VPtr); ok && x.Path == y.Path && (x.Elem == nil) == (y.Elem == nil) {
			r := VPtr{Obj: j.obj(x.Obj, y.Obj), Path: x.Path}
			if x.Elem != nil {
				l := j.Int(*x.Elem, *y.Elem)
				r.Elem = &l
			}
			return r
		}
	case VIface:
		if y, ok := b.(VIface); ok && types.Identical(x.T, y.T) {
			return VIface{x.T, j.Val(x.V, y.V)}
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			r := VSlice{Arr: j.obj(x.Arr, y.Arr), Off: j.Int(x.Off, y.Off), Len: j.Int(x.Len, y.Len), Cap: j.Int(x.Cap, y.Cap)}
			switch {
			case x.Nil == nil && y.Nil == nil:
			case x.Nil != nil && y.Nil != nil && (x.Nil == y.Nil || x.Nil.Op == "atom" && y.Nil.Op == "atom" && x.Nil.A == y.Nil.A && j.isSafe(x.Nil.A)):
				r.Nil = x.Nil
			default:
				r.Nil = Atom(MkTerm("slicenil", "", []*Term{FreshTerm("jn", nil)}, r.Len))
			}
			return r
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			r := VStruct{}
			for i := range x.F {
				r.F = append(r.F, j.Val(x.F[i], y.F[i]))
			}
			return r
		}
	case VFunc:
		if y, ok := b.(VFunc); ok && x.Fn == y.Fn && len(x.Bind) == len(y.Bind) {
			r := VFunc{Fn: x.Fn}
			for i := range x.Bind {
				r.Bind = append(r.Bind, j.Val(x.Bind[i], y.Bind[i]))
			}
			return r
		}
	case VLock:
		if y, ok := b.(VLock); ok && x == y {
			return x
		}
	case VBad:
		if _, ok := b.(VBad); ok {
			return x
		}
	}
	j.fail("values %s / %s", j.A.ShowVal(a), j.B.ShowVal(b))
	return a
}

// State joins everything that is not passed explicitly: objects made before
// the mark, ghosts, globals, panics in progress.
func (j *Joiner) State() {
	// globals
	gs := map[*ssa.Global]bool{}
	for g := range j.A.Glob {
		gs[g] = true
	}
	for g := range j.B.Glob {
		gs[g] = true
	}
	var gl []*ssa.Global
	for g := range gs {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(x, y int) bool { return gl[x].String() < gl[y].String() })
	for _, g := range gl {
		a := j.in.globalObj(j.A, g)
		b := j.in.globalObj(j.B, g)
		if a != b && (a <= j.mark.Obj || b <= j.mark.Obj) {
			// made on demand in one of the states
			j.in.renameObj(j.B, b, a)
			b = a
		}
		j.C.Glob[g] = j.obj(a, b)
	}
	// objects known before the mark
	for _, id := range objIDs(j.A) {
		if id <= j.mark.Obj && j.B.Heap[id] != nil {
			j.obj(id, id)
		}
	}
	// ghosts
	names := map[string]bool{}
	for k := range j.A.Ghost {
		names[k] = true
	}
	for k := range j.B.Ghost {
		names[k] = true
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, ok := j.A.Ghost[k]
		b, ok2 := j.B.Ghost[k]
		if !ok || !ok2 {
			j.fail("ghost %s", k)
			return
		}
		j.C.Ghost[k] = j.Val(a, b)
	}
	if len(j.A.Panics) != len(j.B.Panics) {
		j.fail("panics")
		return
	}
	for i := range j.A.Panics {
		p, q := j.A.Panics[i], j.B.Panics[i]
		if p.Recovered != q.Recovered {
			j.fail("panics")
			return
		}
		j.C.Panics = append(j.C.Panics, PanicRec{j.Val(p.V, q.V), p.Recovered})
	}
	for i, k := range j.A.Skolem {
		if i >= len(j.B.Skolem) || k != j.B.Skolem[i] {
			j.fail("skolem")
		}
	}
}

// renameObj is used for objects made on demand, to which nothing else refers.
func (in *Interp) renameObj(st *State, from, to ObjID) {
	o := *st.Heap[from]
	o.ID = to
	st.Heap[to] = &o
	for g, id := range st.Glob {
		if id == from {
			st.Glob[g] = to
		}
	}
}

func objIDs(st *State) []ObjID {
	var ids []ObjID
	for id := range st.Heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	return ids
}

// heap joins the objects reached so far, and those they lead to.
func (j *Joiner) heap() {
	for {
		for len(j.work) > 0 && j.Fail == "" {
			a := j.work[0]
			j.work = j.work[1:]
			j.joinObj(a, j.ab[a])
		}
		if j.Fail != "" {
			return
		}
		// objects made on demand for opaque pointers that are still in use
		n := len(j.work)
		for _, id := range j.lazyTargets() {
			j.obj(id[0], id[1])
		}
		if len(j.work) == n {
			return
		}
	}
}

// lazyTargets pairs the objects of the opaque pointers known to both states.
func (j *Joiner) lazyTargets() [][2]ObjID {
	var out [][2]ObjID
	add := func(ta, tb, tc *Term) {
		if _, ok := j.C.PtrObj[tc]; ok {
			return
		}
		a, oka := j.A.PtrObj[ta]
		b, okb := j.B.PtrObj[tb]
		switch {
		case oka && okb:
		case oka:
			b = lazyLike(j.A.Heap[a], j.B, tb, ta)
		case okb:
			a = lazyLike(j.B.Heap[b], j.A, ta, tb)
		default:
			return
		}
		if a == 0 || b == 0 {
			return
		}
		j.C.PtrObj[tc] = a
		out = append(out, [2]ObjID{a, b})
	}
	for _, p := range j.pairs {
		add(p.a, p.b, p.c)
	}
	ts := map[*Term]bool{}
	for t := range j.A.PtrObj {
		ts[t] = true
	}
	for t := range j.B.PtrObj {
		ts[t] = true
	}
	var l []*Term
	for t := range ts {
		if j.isSafe(t) && (t.ID <= j.mark.Term || j.images[t] == t) {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(a, b int) bool { return l[a].ID < l[b].ID })
	for _, t := range l {
		add(t, t, t)
	}
	return out
}

// lazyLike makes in st the untouched object of pointer t, like o is for to.
func lazyLike(o *Obj, st *State, t, to *Term) ObjID {
	if o == nil {
		return 0
	}
	switch o.Kind {
	case "cells":
		if o.Root == nil {
			return 0
		}
		id := st.NewLazy(o.Type, t.String(), MkTerm("deref", "", []*Term{t}))
		st.PtrObj[t] = id
		return id
	case "map":
		id := st.NewMap(o.Type, t, t.String(), 0)
		st.PtrObj[t] = id
		return id
	case "array":
		id := NewObjID()
		st.PtrObj[t] = id
		src := t
		if t.Op == "arr" {
			src = t.Args[0]
		}
		st.Heap[id] = &Obj{ID: id, Kind: "array", Type: o.Type, ALen: o.ALen, Name: o.Name,
			Segs: []Seg{{Lo: num.Const(0), Hi: o.ALen, Src: MkTerm("content", "", []*Term{src}), D: num.Const(0)}}}
		return id
	}
	return 0
}

func (j *Joiner) joinObj(ida, idb ObjID) {
	a, b := j.A.Heap[ida], j.B.Heap[idb]
	if a == nil || b == nil || a.Kind != b.Kind {
		j.fail("objects %d / %d", ida, idb)
		return
	}
	if a.Type != nil && b.Type != nil && !types.Identical(a.Type, b.Type) {
		j.fail("types of objects %d / %d", ida, idb)
		return
	}
	c := &Obj{ID: ida, Kind: a.Kind, Type: a.Type, Name: a.Name, Site: a.Site, Fresh: a.Fresh && b.Fresh}
	j.C.Heap[ida] = c
	switch a.Kind {
	case "cells":
		c.Cells = map[string]Val{}
		sameRoot := a.Root == b.Root && (a.Root == nil || j.isSafe(a.Root))
		var ks []string
		if sameRoot {
			set := map[string]bool{}
			for k := range a.Cells {
				set[k] = true
			}
			for k := range b.Cells {
				set[k] = true
			}
			for k := range set {
				ks = append(ks, k)
			}
			c.Root = a.Root
		} else {
			ks = Leaves(a.Type, "")
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Cells[k] = j.Val(j.A.Cell(a, k), j.B.Cell(b, k))
		}
	case "array":
		c.ALen = j.Int(a.ALen, b.ALen)
		j.segs(a, b, c)
	case "map":
		j.maps(ida, idb, c)
	case "iter":
		it := &IterData{Any: a.Iter.Any}
		if a.Iter.Any != b.Iter.Any || len(a.Iter.Visited) != len(b.Iter.Visited) {
			j.fail("iteration state")
			return
		}
		it.Map = j.obj(a.Iter.Map, b.Iter.Map)
		for i := range a.Iter.Visited {
			it.Visited = append(it.Visited, j.Val(a.Iter.Visited[i], b.Iter.Visited[i]))
		}
		c.Iter = it
	}
}

func (j *Joiner) segSrc(a, b *Seg) (*Term, bool) {
	if a.Src == nil || b.Src == nil {
		return nil, false
	}
	x, y := j.A.Find(a.Src), j.B.Find(b.Src)
	if x == y && j.isSafe(x) {
		return x, true
	}
	if t, ok := j.terms[[2]*Term{x, y}]; ok {
		return t, true
	}
	if x.Op == y.Op && x.Op != "new" && x.Op != "named" && x.Op != "sentinel" && x.S == y.S && len(x.Args) == len(y.Args) {
		save := j.Fail
		t := j.Term(x, y)
		if j.Fail != save {
			j.Fail = save
			return nil, false
		}
		return t, true
	}
	return nil, false
}

// guess chooses a value for the other state that is to it what l is to st.
func (j *Joiner) guess(st *State, l num.Lin, own, other []num.Lin) (num.Lin, bool) {
	l = st.Num.Norm(l)
	if j.linCommon(l) {
		return l, true
	}
	for i := range own {
		if st.Num.Norm(own[i]).Equal(l) {
			return other[i], true
		}
	}
	for i := range own {
		for k := range own {
			if i != k && st.Num.Norm(own[i].Sub(own[k])).Equal(l) {
				return other[i].Sub(other[k]), true
			}
			if i < k && st.Num.Norm(own[i].Add(own[k])).Equal(l) {
				return other[i].Add(other[k]), true
			}
		}
	}
	return l, false
}

func (j *Joiner) segs(a, b, c *Obj) {
	empty := func(st *State, s Seg) bool { return st.Num.Le(s.Hi, s.Lo) }
	used := map[int]bool{}
	for i := range a.Segs {
		sa := a.Segs[i]
		if empty(j.A, sa) {
			continue
		}
		found := false
		for k := range b.Segs {
			sb := b.Segs[k]
			if used[k] || empty(j.B, sb) {
				continue
			}
			if sa.V != nil && sb.V != nil {
				save := j.Fail
				v := j.Val(sa.V, sb.V)
				if j.Fail != save {
					j.Fail = save
					continue
				}
				c.Segs = append(c.Segs, Seg{Lo: j.Int(sa.Lo, sb.Lo), Hi: j.Int(sa.Hi, sb.Hi), V: v})
				used[k], found = true, true
				break
			}
			if src, ok := j.segSrc(&sa, &sb); ok {
				c.Segs = append(c.Segs, Seg{Lo: j.Int(sa.Lo, sb.Lo), Hi: j.Int(sa.Hi, sb.Hi), Src: src, D: j.Int(sa.D, sb.D)})
				used[k], found = true, true
				break
			}
		}
		// an empty segment of the same kind in b
		for k := 0; k < len(b.Segs) && !found; k++ {
			sb := b.Segs[k]
			if used[k] || !empty(j.B, sb) || sa.Src == nil {
				continue
			}
			if src, ok := j.segSrc(&sa, &sb); ok {
				c.Segs = append(c.Segs, Seg{Lo: j.Int(sa.Lo, sb.Lo), Hi: j.Int(sa.Hi, sb.Hi), Src: src, D: j.Int(sa.D, sb.D)})
				used[k], found = true, true
			}
		}
		if !found {
			if sa.Src != nil && j.isSafe(j.A.Find(sa.Src)) {
				lo, ok := j.guess(j.A, sa.Lo, j.la, j.lb)
				d, ok2 := j.guess(j.A, sa.D, j.la, j.lb)
				if ok && ok2 {
					c.Segs = append(c.Segs, Seg{Lo: j.Int(sa.Lo, lo), Hi: j.Int(sa.Hi, lo), Src: j.A.Find(sa.Src), D: j.Int(sa.D, d)})
					continue
				}
			}
			j.change("array contents")
		}
	}
	for k := range b.Segs {
		sb := b.Segs[k]
		if used[k] || empty(j.B, sb) || sb.Src == nil {
			continue
		}
		same := 0
		for _, sc := range c.Segs {
			if sc.Src != nil && sc.Src == j.B.Find(sb.Src) {
				same++
			}
		}
		if same >= 3 {
			continue // pieces of one sequence do not accumulate without bound
		}
		lo, ok := j.guess(j.B, sb.Lo, j.lb, j.la)
		d, ok2 := j.guess(j.B, sb.D, j.lb, j.la)
		if j.isSafe(j.B.Find(sb.Src)) && ok && ok2 {
			c.Segs = append(c.Segs, Seg{Lo: j.Int(lo, sb.Lo), Hi: j.Int(lo, sb.Hi), Src: j.B.Find(sb.Src), D: j.Int(d, sb.D)})
		}
	}
}

func (j *Joiner) maps(ida, idb ObjID, c *Obj) {
	a, b := j.A.Heap[ida].Map, j.B.Heap[idb].Map
	m := &MapData{Open: a.Open || b.Open, Dirty: a.Dirty || b.Dirty, Since: max(a.Since, b.Since)}
	c.Map = m
	if a.Root != nil && b.Root != nil {
		m.Root = j.Term(a.Root, b.Root)
	} else if a.Root != nil || b.Root != nil {
		m.Dirty = true
	}
	if a.Open != b.Open {
		m.Dirty = true
	}
	if m.Dirty && !a.Dirty {
		j.change("map entries")
	}
	if m.Open && !a.Open {
		j.change("map opened")
	}
	m.Size = j.Int(a.Size, b.Size)
	used := map[int]bool{}
	type pr struct{ ea, eb *Ent }
	var prs []pr
	for i := range a.Ents {
		ea := &a.Ents[i]
		hit := -1
		for k := range b.Ents {
			if !used[k] && j.sameKey(ea.K, b.Ents[k].K) {
				hit = k
				break
			}
		}
		if hit >= 0 {
			used[hit] = true
			prs = append(prs, pr{ea, &b.Ents[hit]})
		} else {
			prs = append(prs, pr{ea, nil})
		}
	}
	for k := range b.Ents {
		if !used[k] {
			prs = append(prs, pr{nil, &b.Ents[k]})
		}
	}
	mt := c.Type.Underlying().(*types.Map)
	absent := func(st *State, md *MapData, k Val) *Ent {
		if !md.Open {
			return &Ent{K: k, P: False, V: VNil{}}
		}
		if md.Root != nil && !md.Dirty {
			if kt := st.keyTerm(k); kt != nil {
				return &Ent{K: k, P: Atom(MkTerm("maphas", "", []*Term{md.Root, kt})), V: st.ValOf(MkTerm("mapelem", "", []*Term{md.Root, kt}), mt.Elem())}
			}
		}
		return nil
	}
	for _, p := range prs {
		ea, eb := p.ea, p.eb
		var key Val
		if ea != nil {
			key = ea.K
		} else {
			key = eb.K
		}
		if ea == nil || eb == nil {
			if r, ok := key.(VRef); ok {
				if ea == nil {
					r.T = j.B.Find(r.T)
				} else {
					r.T = j.A.Find(r.T)
				}
				if !j.isSafe(r.T) {
					if ea != nil {
						j.change("map key")
					}
					m.Open, m.Dirty, m.Since = true, true, objN
					continue
				}
			} else {
				j.fail("map keys")
				return
			}
		}
		if ea == nil {
			ea = absent(j.A, a, key)
		}
		if eb == nil {
			eb = absent(j.B, b, key)
		}
		if ea == nil || eb == nil {
			if ea != nil {
				j.change("map entry")
			}
			m.Open, m.Dirty, m.Since = true, true, objN
			continue
		}
		e := Ent{K: j.Val(ea.K, eb.K), Mod: ea.Mod || eb.Mod, Generic: ea.Generic && eb.Generic}
		da, db := j.A.Decide(ea.P), j.B.Decide(eb.P)
		switch {
		case da != 0 && da == db:
			e.P = B(da > 0)
		case da != 0 && db != 0:
			j.fail("map entry present / absent")
			return
		case ea.P.Op == "atom" && eb.P.Op == "atom" && ea.P.A == eb.P.A && j.isSafe(ea.P.A):
			e.P = ea.P
		default:
			if da != db {
				j.fail("map entry presence")
				return
			}
			e.P = Atom(FreshTerm("jp", nil))
			if ea.P.Op != "atom" || ea.P.A.Op != "new" || ea.P.A.ID <= j.mark.Term {
				j.change("map entry presence")
			}
		}
		if e.P.Op == "f" {
			e.V = VNil{}
		} else {
			e.V = j.Val(ea.V, eb.V)
		}
		if j.Fail != "" {
			return
		}
		m.Ents = append(m.Ents, e)
	}
}

func (j *Joiner) sameKey(a, b Val) bool {
	switch x := a.(type) {
	case VRef:
		y, ok := b.(VRef)
		if !ok {
			return false
		}
		s, t := j.A.Find(x.T), j.B.Find(y.T)
		return s == t && j.isSafe(s) || j.terms[[2]*Term{s, t}] != nil
	case VPtr:
		y, ok := b.(VPtr)
		return ok && (x.Obj == y.Obj && x.Obj <= j.mark.Obj || j.ab[x.Obj] == y.Obj && y.Obj != 0)
	case VInt:
		y, ok := b.(VInt)
		return ok && x.L.Equal(y.L)
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && j.sameKey(x.V, y.V)
	}
	return false
}

// Finish builds the joined state; ok is false if the states must be kept
// apart.
func (j *Joiner) Finish() (c *State, ok bool) {
	j.heap()
	if j.Fail != "" {
		return nil, false
	}
	// facts
	j.facts()
	// numbers
	c = j.C
	c.Num = num.Join(j.A.Num, j.B.Num, j.slots, j.la, j.lb, j.common, j.weaken, j.fixed, j.base, j.compounds())
	if j.Changed == "" {
		if l, ok := num.Implies(c.Num, j.A.Num, j.slots, j.la, j.common); !ok {
			j.change("bound %s", l)
		}
	}
	return c, true
}

func (j *Joiner) compounds() []num.Lin {
	var ks []string
	for k := range j.exprs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []num.Lin
	for i, k := range ks {
		if i < 40 {
			out = append(out, j.exprs[k])
		}
	}
	return out
}

func (j *Joiner) facts() {
	c := j.C
	// equalities
	var rs []*Term
	for t := range j.A.Rep {
		rs = append(rs, t)
	}
	sort.Slice(rs, func(x, y int) bool { return rs[x].ID < rs[y].ID })
	for _, t := range rs {
		if !j.isSafe(t) || (t.ID > j.mark.Term && j.images[t] == nil) {
			continue
		}
		r := j.A.Find(t)
		if j.B.Find(t) == r && j.isSafe(r) {
			c.Rep[t] = r
			continue
		}
		if im := j.images[r]; im != nil {
			ok := false
			for _, p := range j.pairs {
				if p.a == r && p.b == j.B.Find(t) {
					c.Rep[t] = p.c
					ok = true
				}
			}
			if ok {
				continue
			}
		}
		if t.ID <= j.mark.Term {
			j.change("equality of %s and %s", t, r)
		}
	}
	var fs []*Term
	for f := range j.A.Facts {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(x, y int) bool { return fs[x].ID < fs[y].ID })
	for _, f := range fs {
		pol := j.A.Facts[f]
		j.fact(f, pol)
	}
}

// fact carries a fact of A over if it holds in B too.
func (j *Joiner) fact(f *Term, pol bool) {
	for _, l := range f.L {
		if !j.linCommon(l) {
			return
		}
	}
	type opt struct{ b, c *Term }
	var opts [][]opt
	if len(f.Args) == 0 {
		if !j.isSafe(f) || (f.ID > j.mark.Term && f.Op == "new") {
			// an opaque condition made meanwhile: keep if both know it
			if v, ok := j.B.Facts[f]; ok && v == pol {
				j.C.Facts[f] = pol
			}
			return
		}
	}
	for _, t := range f.Args {
		var os []opt
		for _, p := range j.pairs {
			if p.a == t {
				os = append(os, opt{p.b, p.c})
			}
		}
		if len(os) == 0 && j.isSafe(t) {
			os = append(os, opt{t, t})
		}
		if len(os) == 0 {
			return
		}
		opts = append(opts, os)
	}
	var rec func(i int, bs, cs []*Term)
	rec = func(i int, bs, cs []*Term) {
		if i < len(opts) {
			for _, o := range opts[i] {
				rec(i+1, append(bs[:len(bs):len(bs)], o.b), append(cs[:len(cs):len(cs)], o.c))
			}
			return
		}
		mk := func(as []*Term) *Term {
			if f.Op == "eq" {
				return eqAtom(as[0], as[1])
			}
			t := f
			if len(as) > 0 {
				t = MkTerm(f.Op, f.S, as, f.L...)
			}
			if t.T == nil {
				t.T = f.T
			}
			return t
		}
		d := j.B.decideAtom(mk(bs))
		if d != 0 && (d > 0) == pol {
			g := mk(cs)
			if f.Op == "eq" && cs[0] == cs[1] {
				return
			}
			j.C.Facts[g] = pol
			return
		}
		stale := false // only about values made meanwhile that do not live on
		for i, t := range f.Args {
			if t.ID > j.mark.Term && t == cs[i] && j.images[t] == nil {
				stale = true
			}
		}
		if !stale {
			j.change("fact %s=%v", f, pol)
		}
	}
	rec(0, nil, nil)
}

// ---- loops

type loopEntry struct {
	fr    *frame
	runs  int
	joins int
	dirty bool
	outs  []Outcome
	exits []edgeFrame
}

type loopTable struct {
	in      *Interp
	fi      *fnInfo
	l       *loopInfo
	mark    Mark
	live    []ssa.Value
	hasNext bool
	entries []*loopEntry
}

const maxPartitions = 120

func newLoopTable(in *Interp, fi *fnInfo, l *loopInfo) *loopTable {
	t := &loopTable{in: in, fi: fi, l: l, mark: MarkNow()}
	for v := range fi.live[l.header] {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			continue
		}
		t.live = append(t.live, v)
	}
	sort.Slice(t.live, func(a, b int) bool { return t.live[a].Name() < t.live[b].Name() })
	for _, ins := range l.header.Instrs {
		if _, ok := ins.(*ssa.Next); ok {
			t.hasNext = true
		}
	}
	return t
}

func (t *loopTable) next() *loopEntry {
	for _, e := range t.entries {
		if e.dirty {
			e.dirty = false
			return e
		}
	}
	return nil
}

func (t *loopTable) add(fr *frame, initial bool) {
	if fr.st.Bad() || !fr.st.Num.Feasible() {
		return
	}
	fr = fr.clone()
	if t.hasNext {
		fr.st.ForgetGeneric()
	}
	for _, f := range t.concretize(fr) {
		t.add1(f, initial)
	}
}

// concretize forks on undecided conditions held in variables.
func (t *loopTable) concretize(fr *frame) []*frame {
	work := []*frame{fr}
	fork := func(f *frame, v Val) []*frame {
		b, ok := f.st.Canon(v).(VBool)
		if !ok || b.F.Op == "t" || b.F.Op == "f" {
			return []*frame{f}
		}
		if b.F.Op == "atom" && b.F.A.ID <= t.mark.Term {
			return []*frame{f}
		}
		g := f.clone()
		var out []*frame
		for _, s := range f.st.Assume(b.F, true) {
			out = append(out, f.with(s))
		}
		for _, s := range g.st.Assume(b.F, false) {
			out = append(out, g.with(s))
		}
		return out
	}
	for _, v := range t.live {
		var nx []*frame
		for _, f := range work {
			if x, ok := f.env[v]; ok {
				nx = append(nx, fork(f, x)...)
			} else {
				nx = append(nx, f)
			}
		}
		work = nx
	}
	// conditions in cells and ghosts
	var out []*frame
	for _, f := range work {
		fs := []*frame{f}
		for _, id := range objIDs(f.st) {
			o := f.st.Heap[id]
			var ks []string
			for k, c := range o.Cells {
				if _, ok := c.(VBool); ok {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				var nx []*frame
				for _, g := range fs {
					nx = append(nx, fork(g, g.st.Heap[id].Cells[k])...)
				}
				fs = nx
			}
		}
		var ks []string
		for k, c := range f.st.Ghost {
			if _, ok := c.(VBool); ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			var nx []*frame
			for _, g := range fs {
				nx = append(nx, fork(g, g.st.Ghost[k])...)
			}
			fs = nx
		}
		out = append(out, fs...)
	}
	return out
}

func (t *loopTable) add1(fr *frame, initial bool) {
	var why []string
	for _, e := range t.entries {
		j := t.in.NewJoin(e.fr.st, fr.st, t.mark, e.joins >= 3)
		env := map[ssa.Value]Val{}
		if len(e.fr.defers) != len(fr.defers) {
			continue
		}
		for _, v := range t.live {
			a, ok := e.fr.env[v]
			b, ok2 := fr.env[v]
			if !ok || !ok2 {
				continue
			}
			env[v] = j.Val(a, b)
		}
		var defs []deferRec
		for i := range fr.defers {
			a, b := e.fr.defers[i], fr.defers[i]
			if a.pos != b.pos || a.call != b.call || len(a.args) != len(b.args) {
				j.fail("deferred calls")
				break
			}
			d := a
			d.fn = j.Val(a.fn, b.fn)
			d.args = nil
			for k := range a.args {
				d.args = append(d.args, j.Val(a.args[k], b.args[k]))
			}
			defs = append(defs, d)
		}
		j.State()
		c, ok := j.Finish()
		if !ok {
			why = append(why, j.Fail)
			continue
		}
		if j.Changed == "" {
			if Debug {
				fmt.Printf("loop %s: included\n", t.in.Pos(loopPos(t.l)))
			}
			return
		}
		if Debug {
			fmt.Printf("loop %s: join %d (%s)\n", t.in.Pos(loopPos(t.l)), e.joins, j.Changed)
		}
		t.in.Stats.Joins++
		e.joins++
		e.fr = &frame{fn: fr.fn, info: fr.info, env: env, defers: defs, st: c, recoverTo: fr.recoverTo}
		e.dirty = true
		e.outs, e.exits = nil, nil
		return
	}
	if len(t.entries) >= maxPartitions {
		panic(TooHard{fmt.Sprintf("loop in %s needs too many partitions (%v)", fr.fn, why)})
	}
	if Debug {
		fmt.Printf("loop %s: new partition %d (%v)\n", t.in.Pos(loopPos(t.l)), len(t.entries), why)
	}
	t.entries = append(t.entries, &loopEntry{fr: fr, dirty: true})
}

// Debug prints the progress of loops.
var Debug bool

func loopPos(l *loopInfo) token.Pos {
	for _, ins := range l.header.Instrs {
		if ins.Pos() != 0 {
			return ins.Pos()
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if ins.Pos() != 0 {
				return ins.Pos()
			}
		}
	}
	return 0
}
