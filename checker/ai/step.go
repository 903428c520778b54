package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

func (in *Interp) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			return VInt{linOfConst(c.Value)}
		case b.Info()&types.IsBoolean != 0:
			return VBool{B(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			return VRef{StrConst(constant.StringVal(c.Value))}
		case b.Info()&types.IsFloat != 0:
			return VRef{floatConst(constant.ToFloat(c.Value).ExactString())}
		}
	}
	return VRef{MkTerm("const", c.String(), nil)}
}

// linOfConst writes large constants relative to 2^62.
func linOfConst(v constant.Value) num.Lin {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		if i < 1<<40 && i > -(1<<40) {
			return num.Const(i)
		}
	}
	big := constant.Shift(constant.MakeInt64(1), token.SHL, 62)
	for m := int64(-4); m <= 4; m++ {
		r := constant.BinaryOp(v, token.SUB, constant.BinaryOp(big, token.MUL, constant.MakeInt64(m)))
		if i, ok := constant.Int64Val(r); ok && i < 1<<40 && i > -(1<<40) {
			return num.Big.Mul(m).AddK(i)
		}
	}
	// some other large constant
	l := num.Var(symOf(MkTerm("bigconst", v.ExactString(), nil)))
	return l
}

func runtimeErr(what string) Val { return VRef{MkTerm("sentinel", "runtime error: "+what, nil)} }

// guard continues where ok holds and panics where it does not.
func (in *Interp) guard(fr *frame, ok *Form, what string, pos token.Pos) (*frame, []Outcome) {
	switch fr.st.Decide(ok) {
	case 1:
		return fr, nil
	}
	g := fr.st.Clone()
	var po []Outcome
	for _, s := range g.Assume(ok, false) {
		s.Note(pos, "run-time panic: "+what)
		if in.H.RuntimePanic != nil {
			in.H.RuntimePanic(in, s, what, pos)
		}
		po = append(po, Outcome{St: s, Panic: true, Val: runtimeErr(what)})
	}
	ss := fr.st.Assume(ok, true)
	if len(ss) == 0 {
		return nil, po
	}
	// conditions guarded here are conjunctions: one state
	fr = fr.with(ss[0])
	return fr, po
}

func conj(fs ...*Form) *Form {
	r := True
	for _, f := range fs {
		r = And(r, f)
	}
	return r
}

// step interprets an instruction that does not transfer control.
func (in *Interp) step(fr *frame, ins ssa.Instruction) (frs []*frame, po []Outcome) {
	st := fr.st
	one := func(f *frame) []*frame {
		if f == nil || f.st.Bad() {
			return nil
		}
		return []*frame{f}
	}
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return one(fr), nil
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		if at, ok := el.Underlying().(*types.Array); ok {
			n := num.Const(at.Len())
			id := st.NewArray(at.Elem(), n, []Seg{{Lo: num.Const(0), Hi: n, V: Zero(at.Elem())}}, name, x.Pos())
			set(x, VPtr{Obj: id})
			return one(fr), nil
		}
		set(x, VPtr{Obj: st.NewCells(el, name, x.Pos())})
		return one(fr), nil
	case *ssa.BinOp:
		return in.binop(fr, x)
	case *ssa.UnOp:
		return in.unop(fr, x)
	case *ssa.ChangeInterface:
		set(x, in.val(fr, x.X))
		return one(fr), nil
	case *ssa.ChangeType:
		set(x, in.val(fr, x.X))
		return one(fr), nil
	case *ssa.Convert:
		return in.convert(fr, x)
	case *ssa.MakeInterface:
		v := in.val(fr, x.X)
		if r, ok := v.(VRef); ok && r.T.Op == "sentinel" {
			set(x, v) // a well-known error
		} else {
			set(x, VIface{T: x.X.Type(), V: v})
		}
		return one(fr), nil
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, in.val(fr, b))
		}
		set(x, f)
		return one(fr), nil
	case *ssa.MakeMap:
		set(x, VPtr{Obj: st.NewMap(x.Type(), nil, "map", x.Pos())})
		return one(fr), nil
	case *ssa.MakeSlice:
		ln, ok1 := in.val(fr, x.Len).(VInt)
		cp, ok2 := in.val(fr, x.Cap).(VInt)
		if !ok1 || !ok2 {
			panic(TooHard{"make: size"})
		}
		f, p := in.guard(fr, conj(Le(num.Const(0), ln.L), Le(ln.L, cp.L), Le(cp.L, num.Big)), "makeslice: len out of range", x.Pos())
		if f == nil {
			return nil, p
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		id := f.st.NewArray(el, cp.L, []Seg{{Lo: num.Const(0), Hi: cp.L, V: Zero(el)}}, "make", x.Pos())
		f.env[x] = VSlice{Arr: id, Len: ln.L, Cap: cp.L}
		return one(f), p
	case *ssa.MakeChan:
		set(x, VRef{FreshTerm("chan", x.Type())})
		return one(fr), nil
	case *ssa.Extract:
		t := in.val(fr, x.Tuple)
		if s, ok := t.(VStruct); ok && x.Index < len(s.F) {
			set(x, st.Canon(s.F[x.Index]))
		} else {
			set(x, st.FreshVal("extract", x.Type()))
		}
		return one(fr), nil
	case *ssa.Field:
		v := in.val(fr, x.X)
		if r, ok := v.(VRef); ok {
			v = st.ValOf(r.T, x.X.Type())
		}
		if s, ok := v.(VStruct); ok && x.Field < len(s.F) {
			set(x, st.Canon(s.F[x.Field]))
		} else {
			set(x, st.FreshVal("field", x.Type()))
		}
		return one(fr), nil
	case *ssa.FieldAddr:
		return in.fieldAddr(fr, x)
	case *ssa.IndexAddr:
		return in.indexAddr(fr, x)
	case *ssa.Index:
		return in.index(fr, x)
	case *ssa.Lookup:
		return in.lookup(fr, x)
	case *ssa.MapUpdate:
		return in.mapUpdate(fr, x)
	case *ssa.Range:
		return in.rangeOver(fr, x)
	case *ssa.Next:
		return in.nextOf(fr, x)
	case *ssa.Slice:
		return in.slice(fr, x)
	case *ssa.Store:
		p := in.val(fr, x.Addr)
		v := in.val(fr, x.Val)
		frs, po := in.toPtr(fr, p, x.Addr.Type(), x.Pos())
		for _, f := range frs {
			in.store(f.fr.st, f.p, v, x.Pos())
		}
		var out []*frame
		for _, f := range frs {
			if !f.fr.st.Bad() {
				out = append(out, f.fr)
			}
		}
		return out, po
	case *ssa.TypeAssert:
		return in.typeAssert(fr, x)
	case *ssa.Call:
		outs := in.callCommon(fr, x.Common(), x.Pos())
		for i, o := range outs {
			if o.St.Bad() {
				continue
			}
			if o.Panic {
				po = append(po, o)
				continue
			}
			f := fr
			if i < len(outs)-1 || true {
				f = &frame{fn: fr.fn, info: fr.info, env: cpMap(fr.env), defers: fr.defers[:len(fr.defers):len(fr.defers)], st: o.St, recoverTo: fr.recoverTo}
			}
			f.env[x] = o.Val
			frs = append(frs, f)
		}
		return frs, po
	case *ssa.Defer:
		d := deferRec{call: x.Common(), pos: x.Pos()}
		d.fn, d.inv, d.args = in.callee(fr, x.Common())
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		return one(fr), nil
	case *ssa.Go:
		in.Problem(x.Pos(), "go statement in %s", fr.fn)
		in.havocArgs(st, x.Common().Args, fr)
		return one(fr), nil
	case *ssa.Send, *ssa.Select:
		in.Problem(ins.Pos(), "channel operation in %s", fr.fn)
		if v, ok := ins.(ssa.Value); ok {
			set(v, st.FreshVal("chan", v.Type()))
		}
		return one(fr), nil
	}
	in.Problem(ins.Pos(), "instruction %T in %s", ins, fr.fn)
	if v, ok := ins.(ssa.Value); ok {
		set(v, st.FreshVal("unknown", v.Type()))
	}
	return one(fr), nil
}

func (in *Interp) havocArgs(st *State, args []ssa.Value, fr *frame) {
	for _, a := range args {
		in.Havoc(st, in.val(fr, a))
	}
}

// Havoc forgets everything about the objects reachable from v.
func (in *Interp) Havoc(st *State, v Val) {
	seen := map[ObjID]bool{}
	var walk func(v Val)
	var obj func(id ObjID)
	obj = func(id ObjID) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.Heap[id]
		if o == nil {
			return
		}
		for _, c := range o.Cells {
			walk(c)
		}
		for _, s := range o.Segs {
			walk(s.V)
		}
		if o.Map != nil {
			for _, e := range o.Map.Ents {
				walk(e.K)
				walk(e.V)
			}
		}
		m := st.Mut(id)
		root := FreshTerm("havoc", nil)
		switch o.Kind {
		case "cells":
			m.Cells = map[string]Val{}
			m.Root = root
		case "array":
			m.Segs = []Seg{{Lo: num.Const(0), Hi: o.ALen, Src: MkTerm("content", "", []*Term{root}), D: num.Const(0)}}
		case "map":
			sz := num.Var(num.Fresh("maplen"))
			st.Num.AddLe(num.Const(0), sz)
			st.Num.AddLe(sz, num.Big)
			m.Map = &MapData{Open: true, Root: root, Size: sz}
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			obj(x.Obj)
		case VSlice:
			obj(x.Arr)
		case VIface:
			walk(x.V)
		case VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case VFunc:
			for _, f := range x.Bind {
				walk(f)
			}
		case VRef:
			if id, ok := st.PtrObj[st.Find(x.T)]; ok {
				obj(id)
			}
		}
	}
	walk(v)
}

// ---- pointers

type ptrFrame struct {
	fr *frame
	p  VPtr
}

// toPtr resolves a pointer value; nil dereferences panic.
func (in *Interp) toPtr(fr *frame, v Val, typ types.Type, pos token.Pos) ([]ptrFrame, []Outcome) {
	switch p := v.(type) {
	case VPtr:
		return []ptrFrame{{fr, p}}, nil
	case VNil:
		fr.st.Note(pos, "nil dereference")
		if in.H.RuntimePanic != nil {
			in.H.RuntimePanic(in, fr.st, "nil dereference", pos)
		}
		return nil, []Outcome{{St: fr.st, Panic: true, Val: runtimeErr("nil dereference")}}
	case VRef:
		f, po := in.guard(fr, Not(Atom(isNilAtom(p.T))), "nil dereference", pos)
		if f == nil {
			return nil, po
		}
		id := f.st.Target(p.T, typ)
		return []ptrFrame{{f, VPtr{Obj: id}}}, po
	}
	panic(TooHard{fmt.Sprintf("%s: dereference of untracked pointer %T (%v)", in.Pos(pos), v, v)})
}

func (in *Interp) fieldAddr(fr *frame, x *ssa.FieldAddr) ([]*frame, []Outcome) {
	ps, po := in.toPtr(fr, in.val(fr, x.X), x.X.Type(), x.Pos())
	var out []*frame
	for _, p := range ps {
		q := p.p
		q.Path += "." + strconv.Itoa(x.Field)
		p.fr.env[x] = q
		out = append(out, p.fr)
	}
	return out, po
}

func (in *Interp) load(st *State, p VPtr, typ types.Type, pos token.Pos) Val {
	if in.H.Load != nil {
		in.H.Load(in, st, p, pos)
	}
	o := st.Heap[p.Obj]
	if o == nil {
		panic(TooHard{"load from missing object at " + in.Pos(pos)})
	}
	switch o.Kind {
	case "cells":
		return st.ReadCells(o, p.Path)
	case "array":
		if p.Elem == nil {
			// whole array value
			if in.H.ArrayAccess != nil {
				in.H.ArrayAccess(in, st, p.Obj, false, pos)
			}
			if u, ok := structOf(typ); ok {
				v := VStruct{}
				for i := 0; i < u.NumFields(); i++ {
					v.F = append(v.F, st.Elem(p.Obj, num.Const(int64(i)), o.Type))
				}
				return v
			}
			return st.FreshVal("arrayval", typ)
		}
		if in.H.ArrayAccess != nil {
			in.H.ArrayAccess(in, st, p.Obj, false, pos)
		}
		v := st.Elem(p.Obj, *p.Elem, o.Type)
		return selectPath(st, v, o.Type, p.Path)
	}
	return st.FreshVal("load", typ)
}

func selectPath(st *State, v Val, typ types.Type, path string) Val {
	for _, s := range strings.Split(path, ".") {
		if s == "" {
			continue
		}
		i, _ := strconv.Atoi(s)
		if r, ok := v.(VRef); ok {
			v = st.ValOf(r.T, typ)
		}
		sv, ok := v.(VStruct)
		u, is := structOf(typ)
		if !is {
			return VBad{"part"}
		}
		typ = u.Field(i).Type()
		if !ok || i >= len(sv.F) {
			return st.FreshVal("part", typ)
		}
		v = sv.F[i]
	}
	return st.Canon(v)
}

func updatePath(st *State, old Val, typ types.Type, path string, v Val) Val {
	path = strings.TrimPrefix(path, ".")
	if path == "" {
		return v
	}
	head, rest := path, ""
	if k := strings.IndexByte(path, '.'); k >= 0 {
		head, rest = path[:k], path[k:]
	}
	i, _ := strconv.Atoi(head)
	if r, ok := old.(VRef); ok {
		old = st.ValOf(r.T, typ)
	}
	s, ok := old.(VStruct)
	u, is := structOf(typ)
	if !ok || !is {
		return VBad{"update"}
	}
	n := VStruct{F: append([]Val(nil), s.F...)}
	n.F[i] = updatePath(st, s.F[i], u.Field(i).Type(), rest, v)
	return n
}

func (in *Interp) store(st *State, p VPtr, v Val, pos token.Pos) {
	if in.H.Store != nil {
		in.H.Store(in, st, p, v, pos)
	}
	in.changes(st, p.Obj, pos)
	o := st.Heap[p.Obj]
	switch o.Kind {
	case "cells":
		st.WriteCells(p.Obj, p.Path, v)
	case "array":
		if in.H.ArrayAccess != nil {
			in.H.ArrayAccess(in, st, p.Obj, true, pos)
		}
		if p.Elem == nil {
			if sv, ok := v.(VStruct); ok {
				for i, f := range sv.F {
					st.SetRange(p.Obj, num.Const(int64(i)), num.Const(int64(i)+1), nil, num.Lin{}, f)
				}
				return
			}
			if r, ok := v.(VRef); ok && r.T.Op == "zeroarray" {
				st.SetRange(p.Obj, num.Const(0), o.ALen, nil, num.Lin{}, Zero(o.Type))
				return
			}
			in.Problem(pos, "store of a whole array")
			in.Havoc(st, VPtr{Obj: p.Obj})
			return
		}
		if p.Path != "" {
			v = updatePath(st, st.Elem(p.Obj, *p.Elem, o.Type), o.Type, p.Path, v)
		}
		if e := st.elemTerm(v); e != nil {
			// an element of a known sequence
			st.SetRange(p.Obj, *p.Elem, p.Elem.AddK(1), e.Args[0], st.Num.Norm(e.L[0].Sub(*p.Elem)), nil)
			return
		}
		st.SetRange(p.Obj, *p.Elem, p.Elem.AddK(1), nil, num.Lin{}, v)
	default:
		in.Problem(pos, "store to %s", o.Kind)
	}
}

// elemTerm is the term of a value that is an element of a sequence.
func (st *State) elemTerm(v Val) *Term {
	var t *Term
	switch x := v.(type) {
	case VRef:
		t = st.Find(x.T)
	case VInt:
		if len(x.L.T) == 1 && x.L.K == 0 && x.L.T[0].C == 1 {
			t = symTerm[x.L.T[0].S]
		}
	}
	if t == nil || t.Op != "elem" || len(t.Args) != 1 || len(t.L) != 1 {
		return nil
	}
	return t
}

// LoadPtr reads through a pointer (for models).
func (in *Interp) LoadPtr(st *State, v Val, typ types.Type) Val {
	p, ok := v.(VPtr)
	if !ok {
		if r, is := v.(VRef); is {
			p = VPtr{Obj: st.Target(r.T, types.NewPointer(typ))}
		} else {
			return st.FreshVal("load", typ)
		}
	}
	o := st.Heap[p.Obj]
	if o.Kind == "cells" {
		return st.ReadCells(o, p.Path)
	}
	return in.load(st, p, typ, token.NoPos)
}

// ---- arrays

// Elem reads element i of array id.
func (st *State) Elem(id ObjID, i num.Lin, typ types.Type) Val {
	o := st.Heap[id]
	for _, s := range o.Segs {
		if st.Num.Le(s.Lo, i) && st.Num.Lt(i, s.Hi) {
			if s.V != nil {
				return st.Canon(s.V)
			}
			return st.Canon(st.ValOf(MkTerm("elem", "", []*Term{s.Src}, st.Num.Norm(i.Add(s.D))), typ))
		}
	}
	return st.FreshVal("elem", typ)
}

// SetRange overwrites elements [lo,hi) of array id.
func (st *State) SetRange(id ObjID, lo, hi num.Lin, src *Term, d num.Lin, v Val) {
	o := st.Mut(id)
	st.cut(o, lo, hi)
	if (src != nil || v != nil) && !st.Num.Le(hi, lo) {
		o.Segs = append(o.Segs, Seg{Lo: lo, Hi: hi, Src: src, D: d, V: v})
		st.mergeSegs(o)
	}
}

// cut removes knowledge about [lo,hi).
func (st *State) cut(o *Obj, lo, hi num.Lin) {
	var out []Seg
	for _, s := range o.Segs {
		if st.Num.Le(s.Hi, lo) || st.Num.Le(hi, s.Lo) || st.Num.Le(hi, lo) {
			out = append(out, s)
			continue
		}
		if st.Num.Le(s.Lo, lo) && !st.Num.Eq(s.Lo, lo) {
			// the part below lo survives; if lo may lie above s.Hi the
			// part still is s up to min(lo, s.Hi)
			if st.Num.Le(lo, s.Hi) {
				l := s
				l.Hi = lo
				out = append(out, l)
			}
		}
		if st.Num.Le(hi, s.Hi) && !st.Num.Eq(hi, s.Hi) {
			if st.Num.Le(s.Lo, hi) {
				r := s
				r.Lo = hi
				out = append(out, r)
			}
		}
	}
	o.Segs = out
}

// mergeSegs joins adjacent segments of the same sequence and drops empty ones.
func (st *State) mergeSegs(o *Obj) {
	for changed := true; changed; {
		changed = false
	outer:
		for i := range o.Segs {
			if st.Num.Le(o.Segs[i].Hi, o.Segs[i].Lo) {
				o.Segs = append(o.Segs[:i:i], o.Segs[i+1:]...)
				changed = true
				break
			}
			for j := range o.Segs {
				a, b := o.Segs[i], o.Segs[j]
				if i == j || a.Src == nil || a.Src != b.Src {
					continue
				}
				if st.Num.Eq(a.Hi, b.Lo) && st.Num.Eq(a.D, b.D) && st.Num.Le(a.Lo, a.Hi) && st.Num.Le(b.Lo, b.Hi) {
					o.Segs[i] = Seg{Lo: a.Lo, Hi: b.Hi, Src: a.Src, D: a.D}
					o.Segs = append(o.Segs[:j:j], o.Segs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
}

// CopyRange copies n elements (assumes bounds were checked).
func (st *State) CopyRange(dst ObjID, dlo num.Lin, src ObjID, slo, n num.Lin) {
	if st.Num.Le(n, num.Const(0)) {
		return
	}
	so := st.Heap[src]
	shi := slo.Add(n)
	var add []Seg
	for _, s := range so.Segs {
		if st.Num.Le(s.Hi, slo) || st.Num.Le(shi, s.Lo) {
			continue
		}
		lo, hi := s.Lo, s.Hi
		switch {
		case st.Num.Le(s.Lo, slo):
			lo = slo
		case st.Num.Le(slo, s.Lo):
		default:
			continue
		}
		switch {
		case st.Num.Le(shi, s.Hi):
			hi = shi
		case st.Num.Le(s.Hi, shi):
		default:
			continue
		}
		// element k of dst is element k - dlo + slo of src
		sh := slo.Sub(dlo)
		add = append(add, Seg{Lo: lo.Sub(sh), Hi: hi.Sub(sh), Src: s.Src, D: s.D.Add(sh), V: s.V})
	}
	o := st.Mut(dst)
	st.cut(o, dlo, dlo.Add(n))
	o.Segs = append(o.Segs, add...)
	st.mergeSegs(o)
}

// Holds tells whether elements [lo,hi) of array id are known to be elements
// [lo+d, hi+d) of src.
func (st *State) Holds(id ObjID, lo, hi num.Lin, src *Term, d num.Lin) bool {
	if st.Num.Le(hi, lo) {
		return true
	}
	for _, s := range st.Heap[id].Segs {
		if s.Src != nil && st.Find(s.Src) == st.Find(src) && st.Num.Le(s.Lo, lo) && st.Num.Le(hi, s.Hi) && st.Num.Eq(s.D, d) {
			return true
		}
	}
	return false
}

// slices and indexing

func (in *Interp) asSlice(st *State, v Val, typ types.Type) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VNil:
		return VSlice{Arr: 0, Nil: True}, true
	case VRef:
		if _, ok := typ.Underlying().(*types.Slice); ok {
			if s, ok := st.ValOf(x.T, typ).(VSlice); ok {
				return s, true
			}
		}
	}
	return VSlice{}, false
}

func (in *Interp) indexAddr(fr *frame, x *ssa.IndexAddr) ([]*frame, []Outcome) {
	i, ok := in.val(fr, x.Index).(VInt)
	if !ok {
		panic(TooHard{"index"})
	}
	b := in.val(fr, x.X)
	if pt, isP := x.X.Type().Underlying().(*types.Pointer); isP {
		ps, po := in.toPtr(fr, b, x.X.Type(), x.Pos())
		n := pt.Elem().Underlying().(*types.Array).Len()
		var out []*frame
		for _, p := range ps {
			f, po2 := in.guard(p.fr, conj(Le(num.Const(0), i.L), Lt(i.L, num.Const(n))), "index out of range", x.Pos())
			po = append(po, po2...)
			if f == nil {
				continue
			}
			l := i.L
			if p.p.Elem == nil && p.p.Path == "" && f.st.Heap[p.p.Obj].Kind == "array" {
				out = append(out, in.elemPtrs(f, x, p.p.Obj, l)...)
				continue
			}
			// an array inside a struct or another array
			in.pick(f, l, n, x.Pos(), func(g *frame, k int) {
				q := p.p
				q.Path += "." + strconv.Itoa(k)
				g.env[x] = q
				out = append(out, g)
			})
		}
		return out, po
	}
	s, ok := in.asSlice(fr.st, b, x.X.Type())
	if !ok {
		panic(TooHard{fmt.Sprintf("index of %T", b)})
	}
	f, po := in.guard(fr, conj(Le(num.Const(0), i.L), Lt(i.L, s.Len)), "index out of range", x.Pos())
	if f == nil {
		return nil, po
	}
	return in.elemPtrs(f, x, s.Arr, s.Off.Add(i.L)), po
}

// elemPtrs points at element l of an array; in a small table of different
// values each possible element is considered on its own.
func (in *Interp) elemPtrs(fr *frame, x *ssa.IndexAddr, id ObjID, l num.Lin) []*frame {
	o := fr.st.Heap[id]
	if o != nil && o.Kind == "array" && o.ALen.IsConst() && o.ALen.K <= smallArray && len(o.Segs) > 1 && !l.IsConst() {
		table := true
		for _, s := range o.Segs {
			if s.V == nil || fr.st.Num.Le(s.Lo, l) && fr.st.Num.Lt(l, s.Hi) {
				table = false
			}
		}
		if table {
			var out []*frame
			in.pick(fr, l, o.ALen.K, x.Pos(), func(g *frame, k int) {
				e := num.Const(int64(k))
				g.env[x] = VPtr{Obj: id, Elem: &e}
				out = append(out, g)
			})
			return out
		}
	}
	fr.env[x] = VPtr{Obj: id, Elem: &l}
	return []*frame{fr}
}

func (in *Interp) index(fr *frame, x *ssa.Index) ([]*frame, []Outcome) {
	i, ok := in.val(fr, x.Index).(VInt)
	b := in.val(fr, x.X)
	if r, is := b.(VRef); is && ok && isString(x.X.Type()) {
		f, po := in.guard(fr, conj(Le(num.Const(0), i.L), Lt(i.L, fr.st.LenOf(r.T))), "index out of range", x.Pos())
		if f == nil {
			return nil, po
		}
		f.env[x] = f.st.ValOf(MkTerm("elem", "", []*Term{MkTerm("strcontent", "", []*Term{f.st.Find(r.T)})}, f.st.Num.Norm(i.L)), x.Type())
		return []*frame{f}, po
	}
	if at, is := x.X.Type().Underlying().(*types.Array); is && ok {
		f, po := in.guard(fr, conj(Le(num.Const(0), i.L), Lt(i.L, num.Const(at.Len()))), "index out of range", x.Pos())
		if f == nil {
			return nil, po
		}
		if s, is := b.(VStruct); is && len(s.F) == int(at.Len()) {
			var out []*frame
			in.pick(f, i.L, at.Len(), x.Pos(), func(g *frame, k int) {
				g.env[x] = s.F[k]
				out = append(out, g)
			})
			return out, po
		}
		f.env[x] = f.st.FreshVal("index", x.Type())
		return []*frame{f}, po
	}
	fr.env[x] = fr.st.FreshVal("index", x.Type())
	return []*frame{fr}, nil
}

// pick continues with each value index i can have, which lies in [0,n).
func (in *Interp) pick(fr *frame, i num.Lin, n int64, pos token.Pos, f func(*frame, int)) {
	if n > smallArray {
		panic(TooHard{in.Pos(pos) + ": index into a large array inside another value"})
	}
	for k := int64(0); k < n; k++ {
		c := num.Const(k)
		if fr.st.Num.Le(i, c) && fr.st.Num.Le(c, i) {
			f(fr, int(k))
			return
		}
	}
	for k := int64(0); k < n; k++ {
		c := num.Const(k)
		for _, s := range fr.st.Clone().Assume(conj(Le(i, c), Le(c, i)), true) {
			h := fr.clone()
			h.st = s
			f(h, int(k))
		}
	}
}

func (in *Interp) slice(fr *frame, x *ssa.Slice) ([]*frame, []Outcome) {
	get := func(v ssa.Value) (num.Lin, bool) {
		if v == nil {
			return num.Lin{}, false
		}
		i, ok := in.val(fr, v).(VInt)
		if !ok {
			panic(TooHard{"slice bound"})
		}
		return i.L, true
	}
	lo, hasLo := get(x.Low)
	hi, hasHi := get(x.High)
	mx, hasMax := get(x.Max)
	if !hasLo {
		lo = num.Const(0)
	}
	b := in.val(fr, x.X)
	if isString(x.X.Type()) {
		r, ok := b.(VRef)
		if !ok {
			fr.env[x] = fr.st.FreshVal("slice", x.Type())
			return []*frame{fr}, nil
		}
		n := fr.st.LenOf(r.T)
		if !hasHi {
			hi = n
		}
		f, po := in.guard(fr, conj(Le(num.Const(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", x.Pos())
		if f == nil {
			return nil, po
		}
		if f.st.Num.Eq(lo, num.Const(0)) && f.st.Num.Eq(hi, n) {
			f.env[x] = r
		} else {
			t := MkTerm("substr", "", []*Term{MkTerm("strcontent", "", []*Term{f.st.Find(r.T)})}, f.st.Num.Norm(lo), f.st.Num.Norm(hi.Sub(lo)))
			t.T = x.Type()
			f.env[x] = VRef{t}
		}
		return []*frame{f}, po
	}
	var s VSlice
	var po []Outcome
	if pt, isP := x.X.Type().Underlying().(*types.Pointer); isP {
		ps, p := in.toPtr(fr, b, x.X.Type(), x.Pos())
		po = p
		if len(ps) == 0 {
			return nil, po
		}
		fr = ps[0].fr
		n := num.Const(pt.Elem().Underlying().(*types.Array).Len())
		if q := ps[0].p; q.Elem != nil || q.Path != "" || fr.st.Heap[q.Obj].Kind != "array" {
			panic(TooHard{in.Pos(x.Pos()) + ": slice of an array inside another value"})
		}
		s = VSlice{Arr: ps[0].p.Obj, Len: n, Cap: n}
	} else {
		var ok bool
		s, ok = in.asSlice(fr.st, b, x.X.Type())
		if !ok {
			panic(TooHard{fmt.Sprintf("%s: slice of %T", in.Pos(x.Pos()), b)})
		}
	}
	if !hasHi {
		hi = s.Len
	}
	if !hasMax {
		mx = s.Cap
	}
	f, p2 := in.guard(fr, conj(Le(num.Const(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap)), "slice bounds out of range", x.Pos())
	po = append(po, p2...)
	if f == nil {
		return nil, po
	}
	f.env[x] = VSlice{Arr: s.Arr, Off: s.Off.Add(lo), Len: hi.Sub(lo), Cap: mx.Sub(lo), Nil: s.Nil}
	return []*frame{f}, po
}

// ---- maps

func (in *Interp) mapObj(st *State, v Val, typ types.Type) (ObjID, bool) {
	switch x := v.(type) {
	case VPtr:
		return x.Obj, true
	case VRef:
		return st.Target(x.T, typ), true
	}
	return 0, false
}

type mapHit struct {
	st  *State
	idx int // entry index, or -1: certainly absent
}

// find resolves key k in map id, forking as needed; on return the entry's
// presence is decided.
func (in *Interp) find(st *State, id ObjID, k Val) []mapHit {
	o := st.Heap[id]
	for i, e := range o.Map.Ents {
		f := st.EqForm(e.K, k)
		switch st.Decide(f) {
		case 1:
			return in.presence(st, id, i)
		case -1:
			continue
		}
		b := st.Clone()
		var out []mapHit
		for _, s := range st.Assume(f, true) {
			out = append(out, in.presence(s, id, i)...)
		}
		for _, s := range b.Assume(f, false) {
			out = append(out, in.find(s, id, k)...)
		}
		return out
	}
	if !o.Map.Open {
		return []mapHit{{st, -1}}
	}
	if p, is := k.(VPtr); is && p.Obj > o.Map.Since && st.Heap[p.Obj] != nil && st.Heap[p.Obj].Fresh {
		return []mapHit{{st, -1}}
	}
	// materialise
	mt := o.Type.Underlying().(*types.Map)
	m := st.Mut(id)
	kt := st.keyTerm(k)
	var e Ent
	if m.Map.Root != nil && !m.Map.Dirty && kt != nil {
		et := MkTerm("mapelem", "", []*Term{m.Map.Root, kt})
		e = Ent{K: k, P: Atom(MkTerm("maphas", "", []*Term{m.Map.Root, kt})), V: st.ValOf(et, mt.Elem())}
	} else {
		e = Ent{K: k, P: Atom(FreshTerm("maphas", nil)), V: st.FreshVal("mapelem", mt.Elem())}
	}
	m.Map.Ents = append(m.Map.Ents, e)
	return in.presence(st, id, len(m.Map.Ents)-1)
}

func (st *State) keyTerm(k Val) *Term {
	switch x := k.(type) {
	case VRef:
		return st.Find(x.T)
	case VInt:
		return MkTerm("int", "", nil, st.Num.Norm(x.L))
	}
	return nil
}

func (in *Interp) presence(st *State, id ObjID, i int) []mapHit {
	e := st.Heap[id].Map.Ents[i]
	switch st.Decide(e.P) {
	case 1:
		return []mapHit{{st, i}}
	case -1:
		return []mapHit{{st, -1}}
	}
	var out []mapHit
	b := st.Clone()
	for _, s := range st.Assume(e.P, true) {
		m := s.Mut(id)
		m.Map.Ents[i].P = True
		s.mapSize(id)
		if !s.Bad() {
			out = append(out, mapHit{s, i})
		}
	}
	for _, s := range b.Assume(e.P, false) {
		m := s.Mut(id)
		m.Map.Ents[i].P = False
		s.mapSize(id)
		if !s.Bad() {
			out = append(out, mapHit{s, -1})
		}
	}
	return out
}

// mapSize relates the size of a map to its known entries.
func (st *State) mapSize(id ObjID) {
	m := st.Heap[id].Map
	n := int64(0)
	all := true
	for _, e := range m.Ents {
		switch e.P.Op {
		case "t":
			n++
		case "f":
		default:
			all = false
		}
	}
	st.Num.AddLe(num.Const(n), m.Size)
	if !m.Open && all {
		st.Num.AddEq(m.Size, num.Const(n))
	}
}

// ents index of key among known entries (-1: none); presence must have been decided
func (in *Interp) entIndex(st *State, id ObjID, k Val) int {
	for i, e := range st.Heap[id].Map.Ents {
		if st.Decide(st.EqForm(e.K, k)) > 0 {
			return i
		}
	}
	return -1
}

func (in *Interp) lookup(fr *frame, x *ssa.Lookup) ([]*frame, []Outcome) {
	m := in.val(fr, x.X)
	k := in.val(fr, x.Index)
	if isString(x.X.Type()) {
		i, ok := k.(VInt)
		r, ok2 := m.(VRef)
		if !ok || !ok2 {
			fr.env[x] = fr.st.FreshVal("index", x.Type())
			return []*frame{fr}, nil
		}
		f, po := in.guard(fr, conj(Le(num.Const(0), i.L), Lt(i.L, fr.st.LenOf(r.T))), "index out of range", x.Pos())
		if f == nil {
			return nil, po
		}
		f.env[x] = f.st.ValOf(MkTerm("elem", "", []*Term{MkTerm("strcontent", "", []*Term{f.st.Find(r.T)})}, f.st.Num.Norm(i.L)), x.Type())
		return []*frame{f}, po
	}
	mt := x.X.Type().Underlying().(*types.Map)
	mk := func(st *State, v Val, ok bool) Val {
		if x.CommaOk {
			return VStruct{F: []Val{v, VBool{B(ok)}}}
		}
		return v
	}
	var out []*frame
	for _, f := range in.nilMap(fr, m) {
		if f.isNil {
			f.fr.env[x] = mk(f.fr.st, Zero(mt.Elem()), false)
			out = append(out, f.fr)
			continue
		}
		id, ok := in.mapObj(f.fr.st, m, x.X.Type())
		if !ok {
			panic(TooHard{fmt.Sprintf("lookup in %T", m)})
		}
		if in.H.MapAccess != nil {
			in.H.MapAccess(in, f.fr.st, id, k, false, x.Pos())
		}
		hits := in.find(f.fr.st, id, k)
		for _, h := range hits {
			g := f.fr.with(h.st)
			if len(hits) > 1 {
				g = &frame{fn: fr.fn, info: fr.info, env: cpMap(f.fr.env), defers: fr.defers, st: h.st, recoverTo: fr.recoverTo}
			}
			if h.idx < 0 {
				g.env[x] = mk(h.st, Zero(mt.Elem()), false)
			} else {
				g.env[x] = mk(h.st, h.st.Canon(h.st.Heap[id].Map.Ents[h.idx].V), true)
			}
			out = append(out, g)
		}
	}
	return out, nil
}

type nilFrame struct {
	fr    *frame
	isNil bool
}

func (in *Interp) nilMap(fr *frame, m Val) []nilFrame {
	switch r := m.(type) {
	case VNil:
		return []nilFrame{{fr, true}}
	case VRef:
		f := Atom(isNilAtom(r.T))
		switch fr.st.Decide(f) {
		case 1:
			return []nilFrame{{fr, true}}
		case -1:
			return []nilFrame{{fr, false}}
		}
		g := fr.clone()
		var out []nilFrame
		for _, s := range fr.st.Assume(f, true) {
			out = append(out, nilFrame{fr.with(s), true})
		}
		for _, s := range g.st.Assume(f, false) {
			out = append(out, nilFrame{g.with(s), false})
		}
		return out
	}
	return []nilFrame{{fr, false}}
}

func (in *Interp) mapUpdate(fr *frame, x *ssa.MapUpdate) ([]*frame, []Outcome) {
	m := in.val(fr, x.Map)
	k := in.val(fr, x.Key)
	v := in.val(fr, x.Value)
	var out []*frame
	var po []Outcome
	for _, f := range in.nilMap(fr, m) {
		if f.isNil {
			f.fr.st.Note(x.Pos(), "assignment to entry in nil map")
			if in.H.RuntimePanic != nil {
				in.H.RuntimePanic(in, f.fr.st, "assignment to entry in nil map", x.Pos())
			}
			po = append(po, Outcome{St: f.fr.st, Panic: true, Val: runtimeErr("assignment to entry in nil map")})
			continue
		}
		id, ok := in.mapObj(f.fr.st, m, x.Map.Type())
		if !ok {
			panic(TooHard{fmt.Sprintf("update of %T", m)})
		}
		for _, s := range in.MapSet(f.fr.st, id, k, v, x.Pos()) {
			out = append(out, f.fr.with(s))
		}
	}
	return out, po
}

// MapSet performs m[k] = v.
func (in *Interp) MapSet(st *State, id ObjID, k, v Val, pos token.Pos) []*State {
	in.changes(st, id, pos)
	if in.H.MapAccess != nil {
		in.H.MapAccess(in, st, id, k, true, pos)
	}
	var out []*State
	for _, h := range in.find(st, id, k) {
		m := h.st.Mut(id)
		if h.idx >= 0 {
			m.Map.Ents[h.idx].V = v
			m.Map.Ents[h.idx].Mod = true
		} else {
			i := in.entIndex(h.st, id, k)
			if i < 0 {
				m.Map.Ents = append(m.Map.Ents, Ent{K: k})
				i = len(m.Map.Ents) - 1
			}
			e := &m.Map.Ents[i]
			e.P, e.V, e.Mod = True, v, true
			e.Generic = h.st.isGeneric(k)
			m.Map.Size = m.Map.Size.AddK(1)
		}
		out = append(out, h.st)
	}
	return out
}

func (st *State) isGeneric(k Val) bool {
	switch x := k.(type) {
	case VRef:
		return strings.HasPrefix(st.Find(x.T).S, "generic-key#")
	case VPtr:
		o := st.Heap[x.Obj]
		return o != nil && strings.HasPrefix(o.Name, "generic-key")
	}
	return false
}

// MapDelete performs delete(m, k).
func (in *Interp) MapDelete(st *State, id ObjID, k Val, pos token.Pos) []*State {
	in.changes(st, id, pos)
	if in.H.MapAccess != nil {
		in.H.MapAccess(in, st, id, k, true, pos)
	}
	var out []*State
	for _, h := range in.find(st, id, k) {
		if h.idx >= 0 {
			m := h.st.Mut(id)
			m.Map.Ents[h.idx].P = False
			m.Map.Ents[h.idx].Mod = true
			m.Map.Size = m.Map.Size.AddK(-1)
			h.st.mapSize(id)
		}
		out = append(out, h.st)
	}
	return out
}

func (in *Interp) rangeOver(fr *frame, x *ssa.Range) ([]*frame, []Outcome) {
	m := in.val(fr, x.X)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		fr.env[x] = VBad{"string range"}
		return []*frame{fr}, nil
	}
	var out []*frame
	for _, f := range in.nilMap(fr, m) {
		it := &IterData{}
		if !f.isNil {
			id, ok := in.mapObj(f.fr.st, m, x.X.Type())
			if !ok {
				panic(TooHard{"range"})
			}
			it.Map = id
		}
		id := NewObjID()
		f.fr.st.Heap[id] = &Obj{ID: id, Kind: "iter", Iter: it, Name: "iter"}
		f.fr.env[x] = VPtr{Obj: id}
		out = append(out, f.fr)
	}
	return out, nil
}

func (in *Interp) nextOf(fr *frame, x *ssa.Next) ([]*frame, []Outcome) {
	iv, ok := in.val(fr, x.Iter).(VPtr)
	if !ok || x.IsString {
		// arbitrary
		t := x.Type().(*types.Tuple)
		v := VStruct{}
		for i := 0; i < t.Len(); i++ {
			v.F = append(v.F, fr.st.FreshVal("next", t.At(i).Type()))
		}
		fr.env[x] = v
		return []*frame{fr}, nil
	}
	st := fr.st
	it := st.Heap[iv.Obj].Iter
	done := func(f *frame) *frame {
		f.env[x] = VStruct{F: []Val{VBool{False}, VNil{}, VNil{}}}
		return f
	}
	if it.Map == 0 {
		return []*frame{done(fr)}, nil
	}
	if in.H.MapAccess != nil {
		in.H.MapAccess(in, st, it.Map, nil, false, x.Pos())
	}
	// forget the generic keys of the previous step
	st.ForgetGeneric()
	// decide the presence of the listed entries
	sts := []*State{st}
	n := len(st.Heap[it.Map].Map.Ents)
	for i := 0; i < n; i++ {
		var nx []*State
		for _, s := range sts {
			for _, h := range in.presence(s, it.Map, i) {
				nx = append(nx, h.st)
			}
		}
		sts = nx
	}
	var out []*frame
	yield := func(s *State, k, v Val) {
		if s.Bad() {
			return
		}
		f := &frame{fn: fr.fn, info: fr.info, env: cpMap(fr.env), defers: fr.defers, st: s, recoverTo: fr.recoverTo}
		o := s.Mut(iv.Obj)
		o.Iter.Any = true
		f.env[x] = VStruct{F: []Val{VBool{True}, k, v}}
		out = append(out, f)
	}
	for _, s0 := range sts {
		md := s0.Heap[it.Map].Map
		visited := s0.Heap[iv.Obj].Iter.Visited
		pending := false
		for i, e := range md.Ents {
			if e.P.Op != "t" {
				continue
			}
			seen := false
			for _, w := range visited {
				if s0.Same(w, e.K) {
					seen = true
				}
			}
			if seen {
				continue
			}
			pending = true
			s := s0.Clone()
			o := s.Mut(iv.Obj)
			o.Iter.Visited = append(o.Iter.Visited, e.K)
			yield(s, e.K, s.Canon(s.Heap[it.Map].Map.Ents[i].V))
		}
		if md.Open {
			present := int64(0)
			for _, e := range md.Ents {
				if e.P.Op == "t" {
					present++
				}
			}
			s := s0.Clone()
			s.Num.AddLe(num.Const(present+1), md.Size)
			if s.Num.Feasible() {
				if in.H.GenericKey != nil {
					if kvs := in.H.GenericKey(in, s, it.Map); kvs != nil {
						for _, kv := range kvs {
							yield(kv.St, kv.K, kv.V)
						}
						goto exit
					}
				}
				mt := s.Heap[it.Map].Type.Underlying().(*types.Map)
				kt := FreshTerm("generic-key", mt.Key())
				k := s.ValOf(kt, mt.Key())
				feasible := true
				for _, e := range md.Ents {
					ss := s.Assume(s.EqForm(e.K, k), false)
					if len(ss) == 0 {
						feasible = false
						break
					}
					s = ss[0]
				}
				if feasible {
					m := s.Mut(it.Map)
					var v Val
					if m.Map.Root != nil && !m.Map.Dirty {
						v = s.ValOf(MkTerm("mapelem", "", []*Term{m.Map.Root, kt}), mt.Elem())
					} else {
						v = s.FreshVal("mapelem", mt.Elem())
					}
					m.Map.Ents = append(m.Map.Ents, Ent{K: k, P: True, V: v, Generic: true})
					yield(s, k, v)
				}
			}
		}
	exit:
		if !pending {
			s := s0.Clone()
			if !s.Heap[iv.Obj].Iter.Any {
				s.Num.AddEq0(md.Size)
			}
			if s.Num.Feasible() {
				out = append(out, done(&frame{fn: fr.fn, info: fr.info, env: cpMap(fr.env), defers: fr.defers, st: s, recoverTo: fr.recoverTo}))
			}
		}
	}
	return out, nil
}

// ForgetGeneric drops map entries made for arbitrary keys.
func (st *State) ForgetGeneric() {
	for id, o := range st.Heap {
		if o.Kind != "map" {
			continue
		}
		drop := false
		for _, e := range o.Map.Ents {
			if e.Generic {
				drop = true
			}
		}
		if !drop {
			continue
		}
		m := st.Mut(id)
		if !m.Map.Open {
			for _, k := range st.Skolem {
				listed := false
				for _, e := range m.Map.Ents {
					if st.Same(e.K, k) {
						listed = true
					}
				}
				if !listed && keyLike(o, k) {
					m.Map.Ents = append(m.Map.Ents, Ent{K: k, P: False, V: VNil{}, Mod: true})
				}
			}
		}
		var keep []Ent
		for _, e := range m.Map.Ents {
			if !e.Generic {
				keep = append(keep, e)
				continue
			}
			m.Map.Open = true
			m.Map.Since = objN
			if e.Mod {
				m.Map.Dirty = true
			}
		}
		m.Map.Ents = keep
	}
}

// KeepEntries drops the entries of map id whose keys are not kept.
func (st *State) KeepEntries(id ObjID, keep func(k Val) bool) {
	o := st.Heap[id]
	var es []Ent
	for _, e := range o.Map.Ents {
		if keep(e.K) {
			es = append(es, e)
		}
	}
	if len(es) == len(o.Map.Ents) {
		return
	}
	m := st.Mut(id)
	for _, e := range m.Map.Ents {
		if !keep(e.K) && e.P.Op != "f" {
			m.Map.Open = true
		}
	}
	m.Map.Since = objN
	m.Map.Ents = es
}

func keyLike(o *Obj, k Val) bool {
	mt, ok := o.Type.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, isRef := k.(VRef)
	return isRef && isString(mt.Key())
}

// MapGet looks up k in map m (of type typ): one result per case.
func (in *Interp) MapGet(st *State, m Val, typ types.Type, k Val) []MapVal {
	var out []MapVal
	fr := &frame{st: st, env: map[ssa.Value]Val{}}
	for _, f := range in.nilMap(fr, st.Canon(m)) {
		if f.isNil {
			out = append(out, MapVal{St: f.fr.st})
			continue
		}
		id, ok := in.mapObj(f.fr.st, m, typ)
		if !ok {
			panic(TooHard{"lookup"})
		}
		for _, h := range in.find(f.fr.st, id, k) {
			if h.idx < 0 {
				v := MapVal{St: h.st, Map: id}
				if i := in.entIndex(h.st, id, k); i >= 0 {
					v.Mod = h.st.Heap[id].Map.Ents[i].Mod
				}
				out = append(out, v)
				continue
			}
			e := h.st.Heap[id].Map.Ents[h.idx]
			out = append(out, MapVal{St: h.st, Map: id, V: h.st.Canon(e.V), Present: true, Mod: e.Mod})
		}
	}
	return out
}

// MapVal is the result of a lookup.
type MapVal struct {
	St      *State
	Map     ObjID
	V       Val
	Present bool
	Mod     bool
}
