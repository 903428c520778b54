package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

// ObjID names an abstract object.
type ObjID int32

// Val is an abstract value (immutable).
type Val interface{}

type (
	// VInt is an integer.
	VInt struct{ L num.Lin }
	// VBool is a boolean.
	VBool struct{ F *Form }
	// VRef is an opaque value.
	VRef struct{ T *Term }
	// VNil is nil of any type.
	VNil struct{}
	// VPtr points to a cell of an object, or (Elem set) to an element of an
	// array object or a part of it.
	VPtr struct {
		Obj  ObjID
		Elem *num.Lin
		Path string
	}
	// VIface is an interface holding a concrete value.
	VIface struct {
		T types.Type
		V Val
	}
	// VSlice is a slice of an array object.
	VSlice struct {
		Arr           ObjID
		Off, Len, Cap num.Lin
		Nil           *Form
	}
	// VStruct is a struct or tuple value.
	VStruct struct{ F []Val }
	// VFunc is a function value.
	VFunc struct {
		Fn   *ssa.Function
		Bind []Val
	}
	// VLock is the state of a mutex.
	VLock struct{ Held, R bool }
	// VBad is a value the interpreter does not track.
	VBad struct{ Why string }
)

// Seg describes part of the contents of an array: elements Lo <= k < Hi equal
// V, or element k+D of the sequence Src.
type Seg struct {
	Lo, Hi num.Lin
	Src    *Term
	D      num.Lin
	V      Val
}

// Ent is a map entry.
type Ent struct {
	K       Val
	P       *Form // present
	V       Val
	Mod     bool // set or deleted by the code under analysis
	Generic bool // arbitrary key made up while ranging; forgotten at the next step
}

// MapData is the contents of a map object.
type MapData struct {
	Ents  []Ent
	Open  bool // there may be entries not listed
	Size  num.Lin
	Root  *Term // identity for unlisted entries
	Dirty bool  // unlisted entries may have been changed
	Since ObjID // objects allocated later are not keys of unlisted entries
}

// IterData is the state of a map iteration.
type IterData struct {
	Map     ObjID
	Visited []Val
	Any     bool
}

// Obj is an abstract object.  Objects are immutable once in a heap.
type Obj struct {
	ID    ObjID
	Kind  string // "cells", "array", "map", "iter"
	Type  types.Type
	Cells map[string]Val
	Root  *Term // cells not set are derived from this; nil: zero
	Segs  []Seg
	ALen  num.Lin // arrays: number of elements
	Map   *MapData
	Iter  *IterData
	Name  string
	Site  token.Pos
	Fresh bool // allocated by the code under analysis
	Glob  bool // package-level state assumed to keep its initial value
}

var objN ObjID

// NewObjID makes an object identity.
func NewObjID() ObjID { objN++; return objN }

// TraceNode is one step of a path.
type TraceNode struct {
	Prev *TraceNode
	Pos  token.Pos
	Msg  string
}

// PanicRec is a panic in progress.
type PanicRec struct {
	V         Val
	Recovered bool
}

// State is an abstract state.
type State struct {
	Num    *num.Sys
	Heap   map[ObjID]*Obj
	Facts  map[*Term]bool
	Rep    map[*Term]*Term
	PtrObj map[*Term]ObjID
	Ghost  map[string]Val
	Glob   map[*ssa.Global]ObjID
	Skolem []Val // keys chosen arbitrarily but fixed
	Panics []PanicRec
	Trace  *TraceNode
	dead   bool
}

// NewState returns an empty state.
func NewState() *State {
	return &State{Num: num.New(), Heap: map[ObjID]*Obj{}, Facts: map[*Term]bool{}, Rep: map[*Term]*Term{},
		PtrObj: map[*Term]ObjID{}, Ghost: map[string]Val{}, Glob: map[*ssa.Global]ObjID{}}
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Clone copies the state.
func (st *State) Clone() *State {
	return &State{Num: st.Num.Clone(), Heap: cpMap(st.Heap), Facts: cpMap(st.Facts), Rep: cpMap(st.Rep),
		PtrObj: cpMap(st.PtrObj), Ghost: cpMap(st.Ghost), Glob: cpMap(st.Glob), Skolem: st.Skolem,
		Panics: st.Panics[:len(st.Panics):len(st.Panics)], Trace: st.Trace, dead: st.dead}
}

// Note appends to the trace.
func (st *State) Note(pos token.Pos, msg string) {
	st.Trace = &TraceNode{st.Trace, pos, msg}
}

// Find returns the representative of t.
func (st *State) Find(t *Term) *Term {
	for {
		r, ok := st.Rep[t]
		if !ok {
			return t
		}
		t = r
	}
}

// Bad tells whether the state is contradictory.
func (st *State) Bad() bool { return st.dead || st.Num.Bot() }

// ---- integer types

// IntInfo returns the range of an integer type.
func IntInfo(t types.Type) (lo, hi, mod num.Lin, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return
	}
	ok = true
	big := num.Big
	switch b.Kind() {
	case types.Int8:
		return num.Const(-1 << 7), num.Const(1<<7 - 1), num.Const(1 << 8), true
	case types.Int16:
		return num.Const(-1 << 15), num.Const(1<<15 - 1), num.Const(1 << 16), true
	case types.Int32, types.UntypedRune:
		return num.Const(-1 << 31), num.Const(1<<31 - 1), num.Const(1 << 32), true
	case types.Uint8:
		return num.Const(0), num.Const(1<<8 - 1), num.Const(1 << 8), true
	case types.Uint16:
		return num.Const(0), num.Const(1<<16 - 1), num.Const(1 << 16), true
	case types.Uint32:
		return num.Const(0), num.Const(1<<32 - 1), num.Const(1 << 32), true
	case types.Uint, types.Uint64, types.Uintptr:
		return num.Const(0), big.Mul(4).AddK(-1), big.Mul(4), true
	}
	return big.Mul(-2), big.Mul(2).AddK(-1), big.Mul(4), true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- symbols of terms

var termSym = map[*Term]num.Sym{}
var symTerm = map[num.Sym]*Term{}

func symOf(t *Term) num.Sym {
	if s, ok := termSym[t]; ok {
		return s
	}
	s := num.Fresh(t.String())
	termSym[t] = s
	symTerm[s] = t
	return s
}

// IntOf returns the integer value of term t of type typ.
func (st *State) IntOf(t *Term, typ types.Type) num.Lin {
	l := num.Var(symOf(t))
	lo, hi, _, _ := IntInfo(typ)
	st.Num.AddLe(lo, l)
	st.Num.AddLe(l, hi)
	return l
}

// LenOf returns the length of the string or sequence t (between 0 and 2^62).
func (st *State) LenOf(t *Term) num.Lin {
	t = st.Find(t)
	if s, ok := t.IsStrConst(); ok {
		return num.Const(int64(len(s)))
	}
	if t.Op == "cat" {
		l := num.Const(0)
		for _, a := range t.Args {
			l = l.Add(st.LenOf(a))
		}
		return l
	}
	if t.Op == "substr" { // substr(Src; from, len)
		return t.L[1]
	}
	l := num.Var(symOf(MkTerm("len", "", []*Term{t})))
	st.Num.AddLe(num.Const(0), l)
	switch {
	case t.Op == "itoa":
		st.Num.AddLe(num.Const(1), l)
		st.Num.AddLe(l, num.Const(20))
	case t.Op == "pure" && t.S == "net/http.StatusText":
		st.Num.AddLe(l, num.Const(64))
	}
	st.Num.AddLe(l, num.Big)
	return l
}

// FreshInt makes an unknown integer of type typ.
func (st *State) FreshInt(name string, typ types.Type) num.Lin {
	l := num.Var(num.Fresh(name))
	lo, hi, _, _ := IntInfo(typ)
	st.Num.AddLe(lo, l)
	st.Num.AddLe(l, hi)
	return l
}

// ValOf makes the value denoted by term t at type typ.
func (st *State) ValOf(t *Term, typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{st.IntOf(t, typ)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{Atom(t)}
		}
	case *types.Struct:
		if IsLock(typ) {
			return VLock{}
		}
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, st.ValOf(MkTerm("fld", strconv.Itoa(i), []*Term{t}), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u, ok := structOf(typ); ok {
			s := VStruct{}
			for i := 0; i < u.NumFields(); i++ {
				s.F = append(s.F, st.ValOf(MkTerm("fld", strconv.Itoa(i), []*Term{t}), u.Field(i).Type()))
			}
			return s
		}
	case *types.Tuple:
		s := VStruct{}
		for i := 0; i < u.Len(); i++ {
			s.F = append(s.F, st.ValOf(MkTerm("fld", strconv.Itoa(i), []*Term{t}), u.At(i).Type()))
		}
		return s
	case *types.Slice:
		at := MkTerm("arr", "", []*Term{t})
		id, ok := st.PtrObj[at]
		ln := num.Var(symOf(MkTerm("len", "", []*Term{t})))
		cp := num.Var(symOf(MkTerm("cap", "", []*Term{t})))
		if !ok {
			id = NewObjID()
			st.PtrObj[at] = id
			st.Heap[id] = &Obj{ID: id, Kind: "array", Type: u.Elem(), ALen: cp, Name: t.String() + "[]",
				Segs: []Seg{{Lo: num.Const(0), Hi: cp, Src: MkTerm("content", "", []*Term{t}), D: num.Const(0)}}}
			st.Num.AddLe(num.Const(0), ln)
			st.Num.AddLe(ln, cp)
			st.Num.AddLe(cp, num.Big)
		}
		return VSlice{Arr: id, Len: ln, Cap: cp, Nil: Atom(MkTerm("slicenil", "", []*Term{t}, ln))}
	}
	if t.T == nil {
		t.T = typ
	}
	return VRef{t}
}

// FreshVal makes an unknown value of type typ.
func (st *State) FreshVal(name string, typ types.Type) Val {
	return st.ValOf(FreshTerm(name, typ), typ)
}

// IsLock tells whether t is a mutex type.
func IsLock(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, is := t.(*types.Alias); is {
			return IsLock(types.Unalias(a))
		}
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == "sync" && (o.Name() == "Mutex" || o.Name() == "RWMutex")
}

// Zero is the zero value of typ.
func Zero(typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{num.Const(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{False}
		case u.Info()&types.IsString != 0:
			return VRef{StrConst("")}
		case u.Info()&types.IsFloat != 0:
			return VRef{floatConst("0")}
		}
		return VNil{}
	case *types.Struct:
		if IsLock(typ) {
			return VLock{}
		}
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, Zero(u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		s := VStruct{}
		for i := 0; i < u.Len(); i++ {
			s.F = append(s.F, Zero(u.At(i).Type()))
		}
		return s
	case *types.Array:
		if u, ok := structOf(typ); ok {
			s := VStruct{}
			for i := 0; i < u.NumFields(); i++ {
				s.F = append(s.F, Zero(u.Field(i).Type()))
			}
			return s
		}
		return VRef{MkTerm("zeroarray", typ.String(), nil)}
	}
	return VNil{}
}

func floatConst(s string) *Term { return MkTerm("float", s, nil) }

// ---- cells

func isStructLeaf(typ types.Type) (*types.Struct, bool) {
	u, ok := structOf(typ)
	return u, ok && !IsLock(typ)
}

// smallArray bounds the arrays which are handled element by element.
const smallArray = 8

var arrayStructs = map[*types.Array]*types.Struct{}

// structOf returns the parts of a composite type: the fields of a struct or
// the elements of a small array.
func structOf(typ types.Type) (*types.Struct, bool) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		return u, true
	case *types.Array:
		if u.Len() > smallArray {
			return nil, false
		}
		s, ok := arrayStructs[u]
		if !ok {
			var fs []*types.Var
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, types.NewField(token.NoPos, nil, "at"+strconv.Itoa(int(i)), u.Elem(), false))
			}
			s = types.NewStruct(fs, nil)
			arrayStructs[u] = s
		}
		return s, true
	}
	return nil, false
}

// typeAt returns the type of the cell at path in typ.
// TypeAt is the type of the cell at path.
func TypeAt(typ types.Type, path string) types.Type { return typeAt(typ, path) }

func typeAt(typ types.Type, path string) types.Type {
	for _, p := range strings.Split(path, ".") {
		if p == "" {
			continue
		}
		i, _ := strconv.Atoi(p)
		u, ok := structOf(typ)
		if !ok {
			return nil
		}
		typ = u.Field(i).Type()
	}
	return typ
}

// FieldName renders a path.
func FieldName(typ types.Type, path string) string {
	s := ""
	for _, p := range strings.Split(path, ".") {
		if p == "" {
			continue
		}
		i, _ := strconv.Atoi(p)
		u, ok := structOf(typ)
		if !ok {
			return s + path
		}
		s += "." + u.Field(i).Name()
		typ = u.Field(i).Type()
	}
	return s
}

// Leaves lists the leaf cell paths below path in typ.
func Leaves(typ types.Type, path string) []string {
	t := typeAt(typ, path)
	u, ok := isStructLeaf(t)
	if !ok {
		return []string{path}
	}
	var out []string
	for i := 0; i < u.NumFields(); i++ {
		out = append(out, Leaves(typ, path+"."+strconv.Itoa(i))...)
	}
	return out
}

// Cell reads a leaf cell.
func (st *State) Cell(o *Obj, path string) Val {
	if v, ok := o.Cells[path]; ok {
		return st.Canon(v)
	}
	t := typeAt(o.Type, path)
	if o.Root == nil {
		return Zero(t)
	}
	v := st.ValOf(MkTerm("cell", path, []*Term{o.Root}), t)
	return st.Canon(v)
}

// ReadCells reads the value at path, of any type.
func (st *State) ReadCells(o *Obj, path string) Val {
	t := typeAt(o.Type, path)
	u, ok := isStructLeaf(t)
	if !ok {
		return st.Cell(o, path)
	}
	s := VStruct{}
	for i := 0; i < u.NumFields(); i++ {
		s.F = append(s.F, st.ReadCells(o, path+"."+strconv.Itoa(i)))
	}
	return s
}

// Mut returns a private copy of object id for modification.
func (st *State) Mut(id ObjID) *Obj {
	o := *st.Heap[id]
	o.Cells = cpMap(o.Cells)
	o.Segs = append([]Seg(nil), o.Segs...)
	if o.Map != nil {
		m := *o.Map
		m.Ents = append([]Ent(nil), m.Ents...)
		o.Map = &m
	}
	if o.Iter != nil {
		i := *o.Iter
		i.Visited = append([]Val(nil), i.Visited...)
		o.Iter = &i
	}
	st.Heap[id] = &o
	return &o
}

// WriteCells stores v at path of object id.
func (st *State) WriteCells(id ObjID, path string, v Val) {
	o := st.Mut(id)
	st.writeInto(o, path, v)
}

func (st *State) writeInto(o *Obj, path string, v Val) {
	t := typeAt(o.Type, path)
	u, ok := isStructLeaf(t)
	if !ok {
		o.Cells[path] = v
		return
	}
	s, ok := v.(VStruct)
	if !ok {
		if r, is := v.(VRef); is {
			s, ok = st.ValOf(r.T, t).(VStruct)
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		var f Val = VBad{"struct"}
		if ok && i < len(s.F) {
			f = s.F[i]
		}
		st.writeInto(o, path+"."+strconv.Itoa(i), f)
	}
}

// Canon simplifies a value using the facts of st.
func (st *State) Canon(v Val) Val {
	switch x := v.(type) {
	case VRef:
		t := st.Find(x.T)
		if b, ok := st.Facts[isNilAtom(t)]; ok && b {
			return VNil{}
		}
		if t != x.T {
			return VRef{t}
		}
	case VBool:
		if x.F.Op == "t" || x.F.Op == "f" {
			return v
		}
		switch st.Decide(x.F) {
		case 1:
			return VBool{True}
		case -1:
			return VBool{False}
		}
	case VStruct:
		s := VStruct{}
		for _, f := range x.F {
			s.F = append(s.F, st.Canon(f))
		}
		return s
	}
	return v
}

// NewCells allocates a zeroed object with cells.
func (st *State) NewCells(typ types.Type, name string, site token.Pos) ObjID {
	id := NewObjID()
	st.Heap[id] = &Obj{ID: id, Kind: "cells", Type: typ, Cells: map[string]Val{}, Name: name, Site: site, Fresh: true}
	return id
}

// NewLazy makes an object whose contents derive from root.
func (st *State) NewLazy(typ types.Type, name string, root *Term) ObjID {
	id := NewObjID()
	st.Heap[id] = &Obj{ID: id, Kind: "cells", Type: typ, Cells: map[string]Val{}, Root: root, Name: name}
	return id
}

// NewArray allocates an array object.
func (st *State) NewArray(elem types.Type, n num.Lin, segs []Seg, name string, site token.Pos) ObjID {
	id := NewObjID()
	st.Heap[id] = &Obj{ID: id, Kind: "array", Type: elem, ALen: n, Segs: segs, Name: name, Site: site, Fresh: true}
	return id
}

// NewMap allocates a map object.
func (st *State) NewMap(typ types.Type, root *Term, name string, site token.Pos) ObjID {
	id := NewObjID()
	m := &MapData{Root: root}
	if root != nil {
		m.Open = true
		m.Since = objN
		m.Size = num.Var(symOf(MkTerm("maplen", "", []*Term{root})))
		st.Num.AddLe(num.Const(0), m.Size)
		st.Num.AddLe(m.Size, num.Big)
	}
	st.Heap[id] = &Obj{ID: id, Kind: "map", Type: typ, Map: m, Name: name, Site: site, Fresh: root == nil}
	return id
}

// Target returns the object an opaque pointer or map refers to.
func (st *State) Target(t *Term, typ types.Type) ObjID {
	t = st.Find(t)
	if id, ok := st.PtrObj[t]; ok {
		return id
	}
	var id ObjID
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			id = st.NewArray(at.Elem(), num.Const(at.Len()), []Seg{{Lo: num.Const(0), Hi: num.Const(at.Len()), Src: MkTerm("content", "", []*Term{t})}}, t.String(), 0)
		} else {
			id = st.NewLazy(u.Elem(), t.String(), MkTerm("deref", "", []*Term{t}))
		}
	case *types.Map:
		id = st.NewMap(typ, t, t.String(), 0)
	default:
		panic(fmt.Sprintf("target of %v (%v)", t, typ))
	}
	st.PtrObj[t] = id
	return id
}

// ---- conditions

// Decide returns 1 if f holds, -1 if it does not, 0 if unknown.
func (st *State) Decide(f *Form) int {
	switch f.Op {
	case "t":
		return 1
	case "f":
		return -1
	case "le":
		if st.Num.Le0(f.L) {
			return 1
		}
		if st.Num.Le0(num.Const(1).Sub(f.L)) {
			return -1
		}
	case "eq":
		l := st.Num.Norm(f.L)
		if l.IsConst() {
			if l.K == 0 {
				return 1
			}
			return -1
		}
		a, b := st.Num.Le0(l), st.Num.Le0(l.Mul(-1))
		if a && b {
			return 1
		}
		if st.Num.Le0(l.AddK(1)) || st.Num.Le0(num.Const(1).Sub(l)) {
			return -1
		}
	case "not":
		return -st.Decide(f.X)
	case "and":
		x, y := st.Decide(f.X), st.Decide(f.Y)
		if x < 0 || y < 0 {
			return -1
		}
		if x > 0 && y > 0 {
			return 1
		}
	case "or":
		x, y := st.Decide(f.X), st.Decide(f.Y)
		if x > 0 || y > 0 {
			return 1
		}
		if x < 0 && y < 0 {
			return -1
		}
	case "atom":
		return st.decideAtom(f.A)
	}
	return 0
}

func tri(b bool) int {
	if b {
		return 1
	}
	return -1
}

// canonAtom rewrites an atom over representatives.
func (st *State) canonAtom(a *Term) *Term {
	switch a.Op {
	case "isnil":
		t := st.Find(a.Args[0])
		if t != a.Args[0] {
			return isNilAtom(t)
		}
	case "eq":
		x, y := st.Find(a.Args[0]), st.Find(a.Args[1])
		if x != a.Args[0] || y != a.Args[1] {
			return eqAtom(x, y)
		}
	case "impl", "dyn":
		t := st.Find(a.Args[0])
		if t != a.Args[0] {
			n := MkTerm(a.Op, a.S, []*Term{t})
			n.T = a.T
			return n
		}
	}
	return a
}

func (st *State) decideAtom(a *Term) int {
	a = st.canonAtom(a)
	if v, ok := st.Facts[a]; ok {
		return tri(v)
	}
	switch a.Op {
	case "isnil":
		t := a.Args[0]
		if t.Op == "sentinel" || t.Op == "str" || t.Op == "wrap" || t.Op == "made" || t.Op == "nonnil" {
			return -1
		}
		// a value known to implement or equal something is not nil
		for f, v := range st.Facts {
			if !v {
				continue
			}
			if (f.Op == "impl" || f.Op == "dyn") && st.Find(f.Args[0]) == t {
				return -1
			}
		}
	case "eq":
		x, y := a.Args[0], a.Args[1]
		if x == y {
			return 1
		}
		if x.Sentinel() && y.Sentinel() {
			return -1
		}
		// an error made by fmt.Errorf is not one that existed before
		if fx, fy := x.Op == "made" || x.Op == "wrap", y.Op == "made" || y.Op == "wrap"; fx && y.Sentinel() || fy && x.Sentinel() {
			return -1
		}
		nx, ny := st.decideAtom(isNilAtom(x)), st.decideAtom(isNilAtom(y))
		if nx != 0 && ny != 0 && nx != ny {
			return -1
		}
		if nx > 0 && ny > 0 {
			return 1
		}
		if r := st.eqStructured(x, y); r != 0 {
			return r
		}
	case "impl":
		return st.decideImpl(a)
	case "dyn":
		t := a.Args[0]
		if st.decideAtom(isNilAtom(t)) > 0 {
			return -1
		}
		for f, v := range st.Facts {
			if v && f.Op == "dyn" && st.Find(f.Args[0]) == t && f.S != a.S {
				return -1
			}
		}
		// the type must have the methods known to exist
		if a.T != nil {
			if st.dynImpossible(t, a.T) {
				return -1
			}
		}
	}
	return 0
}

// eqStructured compares two terms with the same constructor.
func (st *State) eqStructured(x, y *Term) int {
	if x.Op != y.Op || x.S != y.S || len(x.Args) != len(y.Args) || len(x.L) != len(y.L) {
		return 0
	}
	switch x.Op {
	case "i2f", "itoa", "i2s", "sec", "wrap", "cat", "elem", "fdiv", "substr", "canon", "escape":
	default:
		return 0
	}
	for i := range x.L {
		if !st.Num.Eq(x.L[i], y.L[i]) {
			if x.Op == "itoa" && st.Num.Ne(x.L[i], y.L[i]) {
				return -1
			}
			return 0
		}
	}
	for i := range x.Args {
		if st.decideAtom(eqAtom(st.Find(x.Args[i]), st.Find(y.Args[i]))) <= 0 && st.Find(x.Args[i]) != st.Find(y.Args[i]) {
			return 0
		}
	}
	return 1
}

// SameTerm tells whether x and y are known to be equal.
func (st *State) SameTerm(x, y *Term) bool {
	x, y = st.Find(x), st.Find(y)
	return x == y || st.decideAtom(eqAtom(x, y)) > 0
}

// Assume returns the states of st in which f is pol.
func (st *State) Assume(f *Form, pol bool) []*State {
	if st.Bad() {
		return nil
	}
	switch f.Op {
	case "t":
		if pol {
			return []*State{st}
		}
		return nil
	case "f":
		if pol {
			return nil
		}
		return []*State{st}
	case "not":
		return st.Assume(f.X, !pol)
	case "le":
		l := f.L
		if !pol {
			l = num.Const(1).Sub(l)
		}
		st.Num.AddLe0(l)
		if !st.Num.Feasible() {
			return nil
		}
		return []*State{st}
	case "eq":
		if pol {
			st.Num.AddEq0(f.L)
			if !st.Num.Feasible() {
				return nil
			}
			return []*State{st}
		}
		switch st.Decide(f) {
		case 1:
			return nil
		case -1:
			return []*State{st}
		}
		b := st.Clone()
		out := st.Assume(Le0(f.L.AddK(1)), true)
		return append(out, b.Assume(Le0(num.Const(1).Sub(f.L)), true)...)
	case "and", "or":
		if (f.Op == "and") == pol {
			var out []*State
			for _, s := range st.Assume(f.X, pol) {
				out = append(out, s.Assume(f.Y, pol)...)
			}
			return out
		}
		b := st.Clone()
		out := st.Assume(f.X, pol)
		for _, s := range b.Assume(f.X, !pol) {
			out = append(out, s.Assume(f.Y, pol)...)
		}
		return out
	case "atom":
		if !st.assumeAtom(f.A, pol) {
			return nil
		}
		return []*State{st}
	}
	panic("assume " + f.Op)
}

func (st *State) assumeAtom(a *Term, pol bool) bool {
	a = st.canonAtom(a)
	switch d := st.decideAtom(a); {
	case d == 0:
	case (d > 0) == pol:
		return true
	default:
		return false
	}
	st.Facts[a] = pol
	if pol {
		switch a.Op {
		case "eq":
			return st.merge(a.Args[0], a.Args[1])
		case "slicenil":
			st.Num.AddEq0(a.L[0])
			return st.Num.Feasible()
		case "impl":
			return st.checkImpl(a.Args[0])
		}
	}
	return true
}

// merge makes x and y equal.
func (st *State) merge(x, y *Term) bool {
	x, y = st.Find(x), st.Find(y)
	if x == y {
		return true
	}
	// prefer distinguished representatives
	if rank(x) > rank(y) || (rank(x) == rank(y) && x.ID < y.ID) {
		x, y = y, x
	}
	// x is replaced by y
	if isStringTerm(x) || isStringTerm(y) {
		lx, ly := st.LenOf(x), st.LenOf(y)
		st.Num.AddEq(lx, ly)
		if !st.Num.Feasible() {
			return false
		}
	}
	st.Rep[x] = y
	if id, ok := st.PtrObj[x]; ok {
		if _, has := st.PtrObj[y]; !has {
			st.PtrObj[y] = id
		}
	}
	var move []*Term
	for f := range st.Facts {
		for _, t := range f.Args {
			if t == x {
				move = append(move, f)
				break
			}
		}
	}
	sort.Slice(move, func(i, j int) bool { return move[i].ID < move[j].ID })
	for _, f := range move {
		v := st.Facts[f]
		if f.Op == "eq" || f.Op == "isnil" || f.Op == "impl" || f.Op == "dyn" {
			g := st.canonAtom(f)
			if g == f {
				continue
			}
			delete(st.Facts, f)
			if g.Op == "eq" && g.Args[0] == g.Args[1] {
				if !v {
					return false
				}
				continue
			}
			if d := st.decideAtom(g); d != 0 && (d > 0) != v {
				return false
			}
			st.Facts[g] = v
		}
	}
	return true
}

func isStringTerm(t *Term) bool {
	if t.Op == "str" || t.Op == "cat" {
		return true
	}
	return t.T != nil && isString(t.T)
}

func rank(t *Term) int {
	switch t.Op {
	case "sentinel", "str":
		return 3
	case "named":
		return 2
	case "new":
		return 0
	}
	return 1
}

// ---- interface satisfaction of opaque values

func methodKeys(t types.Type) map[string]bool {
	m := map[string]bool{}
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return m
	}
	for k := 0; k < i.NumMethods(); k++ {
		f := i.Method(k)
		m[f.Id()+types.TypeString(f.Type(), nil)] = true
	}
	return m
}

func concreteMethods(t types.Type) map[string]bool {
	m := map[string]bool{}
	ms := types.NewMethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		f := ms.At(k).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		m[f.Id()+types.TypeString(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), nil)] = true
	}
	return m
}

// ImplAtom is the condition that the dynamic value of t implements iface.
func ImplAtom(t *Term, iface types.Type) *Term {
	a := MkTerm("impl", types.TypeString(iface, nil), []*Term{t})
	a.T = iface
	return a
}

func (st *State) knownMethods(t *Term) map[string]bool {
	m := map[string]bool{}
	if t.T != nil && types.IsInterface(t.T) {
		for k := range methodKeys(t.T) {
			m[k] = true
		}
	}
	for f, v := range st.Facts {
		if v && f.Op == "impl" && st.Find(f.Args[0]) == t {
			for k := range methodKeys(f.T) {
				m[k] = true
			}
		}
	}
	return m
}

func subset(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (st *State) decideImpl(a *Term) int {
	t := a.Args[0]
	want := methodKeys(a.T)
	known := st.knownMethods(t)
	switch st.decideAtom(isNilAtom(t)) {
	case 1:
		return -1
	case -1:
		if subset(want, known) {
			return 1
		}
	case 0:
		// not nil not known: cannot be certain
	}
	all := map[string]bool{}
	for k := range known {
		all[k] = true
	}
	for k := range want {
		all[k] = true
	}
	for f, v := range st.Facts {
		if !v && f.Op == "impl" && st.Find(f.Args[0]) == t && subset(methodKeys(f.T), all) {
			// the value has no such set of methods (if it is not nil)
			if st.decideAtom(isNilAtom(t)) < 0 {
				return -1
			}
		}
	}
	return 0
}

func (st *State) checkImpl(t *Term) bool {
	t = st.Find(t)
	known := st.knownMethods(t)
	for f, v := range st.Facts {
		if !v && f.Op == "impl" && st.Find(f.Args[0]) == t && subset(methodKeys(f.T), known) {
			return false
		}
	}
	return true
}

func (st *State) dynImpossible(t *Term, T types.Type) bool {
	for f, v := range st.Facts {
		if f.Op == "impl" && st.Find(f.Args[0]) == t {
			i := f.T.Underlying().(*types.Interface)
			if types.Implements(T, i) != v {
				return true
			}
		}
	}
	return false
}

// EqForm is the condition a == b.
func (st *State) EqForm(a, b Val) *Form {
	a, b = st.Canon(a), st.Canon(b)
	switch x := a.(type) {
	case VNil:
		switch y := b.(type) {
		case VNil:
			return True
		case VRef:
			return Atom(isNilAtom(y.T))
		case VSlice:
			if y.Nil == nil {
				return False
			}
			return y.Nil
		case VBad:
			return Atom(FreshTerm("eq", nil))
		}
		return False
	case VInt:
		if y, ok := b.(VInt); ok {
			return EqL(x.L, y.L)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return Or(And(x.F, y.F), And(Not(x.F), Not(y.F)))
		}
	case VRef:
		switch y := b.(type) {
		case VRef:
			if x.T == y.T {
				return True
			}
			return Atom(eqAtom(x.T, y.T))
		case VNil:
			return Atom(isNilAtom(x.T))
		case VIface:
			if x.T.Op == "sentinel" {
				return False
			}
		case VPtr:
			if x.T.Op == "sentinel" {
				return False
			}
			if id, ok := st.PtrObj[x.T]; ok && id == y.Obj && y.Path == "" && y.Elem == nil {
				return True
			}
		}
	case VIface:
		switch y := b.(type) {
		case VNil:
			return False
		case VIface:
			if !types.Identical(x.T, y.T) {
				return False
			}
			return st.EqForm(x.V, y.V)
		case VRef:
			return st.EqForm(b, a)
		}
	case VPtr:
		switch y := b.(type) {
		case VNil:
			return False
		case VPtr:
			if x.Obj != y.Obj || x.Path != y.Path {
				return False
			}
			if x.Elem == nil && y.Elem == nil {
				return True
			}
			if x.Elem != nil && y.Elem != nil {
				return EqL(*x.Elem, *y.Elem)
			}
			return False
		case VRef:
			return st.EqForm(b, a)
		}
	case VSlice:
		if _, ok := b.(VNil); ok {
			if x.Nil == nil {
				return False
			}
			return x.Nil
		}
	case VFunc:
		if _, ok := b.(VNil); ok {
			return False
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			f := True
			for i := range x.F {
				f = And(f, st.EqForm(x.F[i], y.F[i]))
			}
			return f
		}
	}
	return Atom(FreshTerm("eq", nil))
}

// Same tells whether a and b are known to be equal.
func (st *State) Same(a, b Val) bool { return st.Decide(st.EqForm(a, b)) > 0 }

// NonNil / IsNil decide nilness.
func (st *State) IsNil(v Val) int { return st.Decide(st.EqForm(v, VNil{})) }

// ShowVal renders a value.
func (st *State) ShowVal(v Val) string {
	switch x := v.(type) {
	case VInt:
		return st.Num.Norm(x.L).String()
	case VBool:
		return x.F.String()
	case VRef:
		return st.Find(x.T).String()
	case VNil:
		return "nil"
	case VPtr:
		o := st.Heap[x.Obj]
		n := fmt.Sprintf("obj%d", x.Obj)
		if o != nil {
			n = fmt.Sprintf("%s@%d", o.Name, x.Obj)
			if x.Path != "" && o.Type != nil {
				n += FieldName(o.Type, x.Path)
			}
		}
		return "&" + n
	case VIface:
		return fmt.Sprintf("%s(%s)", types.TypeString(x.T, func(*types.Package) string { return "" }), st.ShowVal(x.V))
	case VSlice:
		return fmt.Sprintf("arr%d[%s:+%s:%s]", x.Arr, st.Num.Norm(x.Off), st.Num.Norm(x.Len), st.Num.Norm(x.Cap))
	case VStruct:
		var p []string
		for _, f := range x.F {
			p = append(p, st.ShowVal(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VFunc:
		return x.Fn.String()
	case VLock:
		return fmt.Sprintf("lock(%v)", x.Held)
	case VBad:
		return "?" + x.Why
	case nil:
		return "<none>"
	}
	return fmt.Sprintf("%T", v)
}

// Dump renders the state for debugging.
func (st *State) Dump() string {
	var b strings.Builder
	var ids []int
	for id := range st.Heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.Heap[ObjID(id)]
		fmt.Fprintf(&b, "  obj%d %s %s %v root=%v\n", id, o.Kind, o.Name, o.Type, o.Root)
		var ks []string
		for k := range o.Cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "    %s = %s\n", FieldName(o.Type, k), st.ShowVal(o.Cells[k]))
		}
		for _, s := range o.Segs {
			fmt.Fprintf(&b, "    [%s,%s) = %v +%s / %v\n", st.Num.Norm(s.Lo), st.Num.Norm(s.Hi), s.Src, st.Num.Norm(s.D), s.V)
		}
		if o.Map != nil {
			fmt.Fprintf(&b, "    open=%v size=%s\n", o.Map.Open, st.Num.Norm(o.Map.Size))
			for _, e := range o.Map.Ents {
				fmt.Fprintf(&b, "    %s: %s present %s generic %v\n", st.ShowVal(e.K), st.ShowVal(e.V), e.P, e.Generic)
			}
		}
	}
	var gs []string
	for g := range st.Ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		fmt.Fprintf(&b, "  ghost %s = %s\n", g, st.ShowVal(st.Ghost[g]))
	}
	for f, v := range st.Facts {
		fmt.Fprintf(&b, "  fact %s = %v\n", f, v)
	}
	fmt.Fprintf(&b, "  num %s\n", st.Num)
	return b.String()
}
