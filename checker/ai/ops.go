package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

func (in *Interp) unop(fr *frame, x *ssa.UnOp) ([]*frame, []Outcome) {
	v := in.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		ps, po := in.toPtr(fr, v, x.X.Type(), x.Pos())
		var out []*frame
		for _, p := range ps {
			pos := x.Pos()
			if pos == token.NoPos {
				pos = x.X.Pos()
			}
			p.fr.env[x] = in.load(p.fr.st, p.p, x.Type(), pos)
			out = append(out, p.fr)
		}
		return out, po
	case token.NOT:
		if b, ok := v.(VBool); ok {
			fr.env[x] = VBool{Not(b.F)}
			return []*frame{fr}, nil
		}
	case token.SUB:
		if i, ok := v.(VInt); ok {
			return in.wrapped(fr, x, i.L.Mul(-1), x.Type()), nil
		}
	case token.XOR:
		if i, ok := v.(VInt); ok {
			lo, _, mod, _ := IntInfo(x.Type())
			r := i.L.Mul(-1).AddK(-1)
			if lo.Is(0) {
				r = r.Add(mod)
			}
			fr.env[x] = VInt{r}
			return []*frame{fr}, nil
		}
	}
	if x.Op == token.ARROW {
		in.Problem(x.Pos(), "channel receive in %s", fr.fn)
	}
	fr.env[x] = fr.st.FreshVal("unop", x.Type())
	return []*frame{fr}, nil
}

// wrapped sets x to l reduced to the range of typ.
func (in *Interp) wrapped(fr *frame, x ssa.Value, l num.Lin, typ types.Type) []*frame {
	lo, hi, mod, ok := IntInfo(typ)
	if !ok {
		fr.env[x] = VInt{l}
		return []*frame{fr}
	}
	l = fr.st.Num.Norm(l)
	if fr.st.Num.Le(lo, l) && fr.st.Num.Le(l, hi) {
		fr.env[x] = VInt{l}
		return []*frame{fr}
	}
	var out []*frame
	a := fr.clone()
	a.st.Num.AddLe(lo, l)
	a.st.Num.AddLe(l, hi)
	if a.st.Num.Feasible() {
		a.env[x] = VInt{l}
		out = append(out, a)
	}
	if b, is := typ.Underlying().(*types.Basic); is && b.Kind() == types.Int32 && in.NoWrap32 {
		return out
	}
	for _, up := range []bool{true, false} {
		f := fr.clone()
		var r num.Lin
		if up {
			f.st.Num.AddLe(hi.AddK(1), l)
			r = l.Sub(mod)
		} else {
			f.st.Num.AddLe(l, lo.AddK(-1))
			r = l.Add(mod)
		}
		if !f.st.Num.Feasible() {
			continue
		}
		if !f.st.Num.Le(lo, r) || !f.st.Num.Le(r, hi) {
			// wraps more than once: unknown
			f.env[x] = VInt{f.st.FreshInt("wrap", typ)}
		} else {
			f.st.Note(x.Pos(), "integer overflow")
			f.env[x] = VInt{r}
		}
		out = append(out, f)
	}
	return out
}

func (in *Interp) binop(fr *frame, x *ssa.BinOp) ([]*frame, []Outcome) {
	a, b := in.val(fr, x.X), in.val(fr, x.Y)
	st := fr.st
	one := func(v Val) ([]*frame, []Outcome) {
		fr.env[x] = v
		return []*frame{fr}, nil
	}
	switch x.Op {
	case token.EQL:
		return one(VBool{st.EqForm(a, b)})
	case token.NEQ:
		return one(VBool{Not(st.EqForm(a, b))})
	}
	ia, oka := a.(VInt)
	ib, okb := b.(VInt)
	if oka && okb {
		p, q := ia.L, ib.L
		switch x.Op {
		case token.LSS:
			return one(VBool{Lt(p, q)})
		case token.LEQ:
			return one(VBool{Le(p, q)})
		case token.GTR:
			return one(VBool{Lt(q, p)})
		case token.GEQ:
			return one(VBool{Le(q, p)})
		case token.ADD:
			return in.wrapped(fr, x, p.Add(q), x.Type()), nil
		case token.SUB:
			return in.wrapped(fr, x, p.Sub(q), x.Type()), nil
		}
		pn, qn := st.Num.Norm(p), st.Num.Norm(q)
		switch x.Op {
		case token.MUL:
			if qn.IsConst() && abs(qn.K) <= 1<<20 && smallCoefs(pn, qn.K) {
				return in.wrapped(fr, x, pn.Mul(qn.K), x.Type()), nil
			}
			if pn.IsConst() && abs(pn.K) <= 1<<20 && smallCoefs(qn, pn.K) {
				return in.wrapped(fr, x, qn.Mul(pn.K), x.Type()), nil
			}
			return one(VInt{st.FreshInt("mul", x.Type())})
		case token.QUO, token.REM:
			f, po := in.guard(fr, Not(EqL(q, num.Const(0))), "integer divide by zero", x.Pos())
			if f == nil {
				return nil, po
			}
			r := f.st.FreshInt("div", x.Type())
			nonneg := f.st.Num.Le(num.Const(0), p)
			if qn.IsConst() && qn.K > 0 && qn.K <= 1<<30 && nonneg {
				// p = k*r + m, 0 <= m < k
				m := f.st.FreshInt("rem", x.Type())
				f.st.Num.AddLe(num.Const(0), m)
				f.st.Num.AddLe(m, num.Const(qn.K-1))
				f.st.Num.AddLe(num.Const(0), r)
				f.st.Num.AddEq(p, r.Mul(qn.K).Add(m))
				if x.Op == token.REM {
					r = m
				}
			} else if nonneg && f.st.Num.Le(num.Const(1), q) {
				f.st.Num.AddLe(num.Const(0), r)
				if x.Op == token.REM {
					f.st.Num.AddLe(r, q.AddK(-1))
				}
				f.st.Num.AddLe(r, p)
			}
			f.env[x] = VInt{r}
			return []*frame{f}, po
		case token.AND, token.AND_NOT, token.OR, token.XOR, token.SHL, token.SHR:
			r := in.bitop(st, x.Op, pn, qn, x.Type())
			return one(VInt{r})
		}
	}
	ra, ok1 := a.(VRef)
	rb, ok2 := b.(VRef)
	if ok1 && ok2 && isString(x.X.Type()) && x.Op == token.ADD {
		return one(VRef{Cat(st, ra.T, rb.T)})
	}
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ok1 && ok2 {
			return one(VBool{Atom(MkTerm("cmp", x.Op.String(), []*Term{st.Find(ra.T), st.Find(rb.T)}))})
		}
		return one(VBool{Atom(FreshTerm("cmp", nil))})
	}
	if ok1 && ok2 {
		op := "f" + x.Op.String()
		if x.Op == token.QUO {
			op = "fdiv"
		}
		t := MkTerm(op, "", []*Term{st.Find(ra.T), st.Find(rb.T)})
		t.T = x.Type()
		return one(VRef{t})
	}
	ba, ok1 := a.(VBool)
	bb, ok2 := b.(VBool)
	if ok1 && ok2 {
		switch x.Op {
		case token.AND:
			return one(VBool{And(ba.F, bb.F)})
		case token.OR:
			return one(VBool{Or(ba.F, bb.F)})
		}
	}
	return one(st.FreshVal("binop", x.Type()))
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func smallCoefs(l num.Lin, k int64) bool {
	if abs(l.K) > 1<<19 {
		return false
	}
	for _, t := range l.T {
		if abs(t.C) > 1<<15 {
			return false
		}
	}
	return true
}

// bitop models bit operations by bounds.
func (in *Interp) bitop(st *State, op token.Token, p, q num.Lin, typ types.Type) num.Lin {
	if p.IsConst() && q.IsConst() && abs(p.K) < 1<<30 && q.K >= 0 && q.K < 1<<30 {
		switch op {
		case token.AND:
			return num.Const(p.K & q.K)
		case token.OR:
			return num.Const(p.K | q.K)
		case token.XOR:
			return num.Const(p.K ^ q.K)
		case token.AND_NOT:
			return num.Const(p.K &^ q.K)
		case token.SHL:
			if q.K < 20 && p.K >= 0 && p.K < 1<<18 {
				return num.Const(p.K << uint(q.K))
			}
		case token.SHR:
			if q.K < 62 {
				return num.Const(p.K >> uint(q.K))
			}
		}
	}
	r := st.FreshInt("bits", typ)
	nonneg := st.Num.Le(num.Const(0), p)
	switch op {
	case token.AND:
		if !nonneg && st.Num.Le(num.Const(0), q) {
			p, q = q, p
			nonneg = true
		}
		if nonneg {
			st.Num.AddLe(num.Const(0), r)
			st.Num.AddLe(r, p)
			if st.Num.Le(num.Const(0), q) {
				st.Num.AddLe(r, q)
			}
			// x & ^(2^k-1): a negative mask -2^k rounds down
			n := q.Mul(-1)
			if n.IsConst() && n.K > 0 && n.K&(n.K-1) == 0 {
				st.Num.AddLe(p, r.AddK(n.K-1))
				in.multiple(st, r, n.K)
			}
			_, hi, mod, _ := IntInfo(typ)
			_ = hi
			n = mod.Sub(q)
			if n.IsConst() && n.K > 0 && n.K&(n.K-1) == 0 {
				st.Num.AddLe(p, r.AddK(n.K-1))
				in.multiple(st, r, n.K)
			}
		}
	case token.AND_NOT:
		if nonneg {
			st.Num.AddLe(num.Const(0), r)
			st.Num.AddLe(r, p)
			if q.IsConst() && q.K >= 0 {
				st.Num.AddLe(p, r.AddK(q.K))
				if (q.K+1)&q.K == 0 {
					in.multiple(st, r, q.K+1)
				}
			}
		}
	case token.OR:
		if nonneg && st.Num.Le(num.Const(0), q) {
			st.Num.AddLe(p, r)
			st.Num.AddLe(q, r)
		}
	case token.SHL:
		if nonneg && q.IsConst() && q.K >= 0 && q.K < 30 {
			k := int64(1) << uint(q.K)
			_, hi, _, _ := IntInfo(typ)
			if smallCoefs(p, k) && st.Num.Le(p.Mul(k), hi) {
				st.Num.AddEq(r, p.Mul(k))
			}
		}
	case token.SHR:
		if nonneg {
			st.Num.AddLe(num.Const(0), r)
			st.Num.AddLe(r, p)
			if q.IsConst() && q.K >= 0 && q.K < 30 {
				k := int64(1) << uint(q.K)
				st.Num.AddLe(r.Mul(k), p)
				st.Num.AddLe(p, r.Mul(k).AddK(k-1))
			}
		}
	}
	return r
}

func (in *Interp) multiple(st *State, r num.Lin, k int64) {
	if k > 1<<30 {
		return
	}
	m := num.Var(num.Fresh("mult"))
	st.Num.AddEq(r, m.Mul(k))
}

// Cat concatenates strings.
func Cat(st *State, a, b *Term) *Term {
	a, b = st.Find(a), st.Find(b)
	var parts []*Term
	add := func(t *Term) {
		ps := []*Term{t}
		if t.Op == "cat" {
			ps = t.Args
		}
		for _, p := range ps {
			p = st.Find(p)
			if s, ok := p.IsStrConst(); ok {
				if s == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if q, ok := parts[n-1].IsStrConst(); ok {
						parts[n-1] = StrConst(q + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	add(a)
	add(b)
	switch len(parts) {
	case 0:
		return StrConst("")
	case 1:
		return parts[0]
	}
	t := MkTerm("cat", "", parts)
	t.T = types.Typ[types.String]
	return t
}

func (in *Interp) convert(fr *frame, x *ssa.Convert) ([]*frame, []Outcome) {
	v := in.val(fr, x.X)
	st := fr.st
	from, to := x.X.Type(), x.Type()
	set := func(v Val) ([]*frame, []Outcome) {
		fr.env[x] = v
		return []*frame{fr}, nil
	}
	switch {
	case isInt(from) && isInt(to):
		if i, ok := v.(VInt); ok {
			return in.wrapped(fr, x, i.L, to), nil
		}
	case isInt(from) && isFloat(to):
		if i, ok := v.(VInt); ok {
			return set(VRef{MkTerm("i2f", "", nil, st.Num.Norm(i.L))})
		}
	case isFloat(from) && isFloat(to):
		return set(v)
	case isString(from) && isByteSlice(to):
		if r, ok := v.(VRef); ok {
			return set(st.BytesOfString(r.T, x.Pos()))
		}
	case isByteSlice(from) && isString(to):
		if s, ok := in.asSlice(st, v, from); ok {
			return set(VRef{st.StringOfBytes(s)})
		}
	case isString(from) && isString(to):
		return set(v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return set(v)
	}
	return set(st.FreshVal("convert", to))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// BytesOfString makes a fresh slice with the bytes of s.
func (st *State) BytesOfString(s *Term, pos token.Pos) VSlice {
	s = st.Find(s)
	n := st.LenOf(s)
	src, d := MkTerm("strcontent", "", []*Term{s}), num.Const(0)
	if s.Op == "substr" {
		src, d = s.Args[0], s.L[0]
	}
	id := st.NewArray(types.Typ[types.Byte], n, []Seg{{Lo: num.Const(0), Hi: n, Src: src, D: d}}, "bytes", pos)
	return VSlice{Arr: id, Len: n, Cap: n}
}

// StringOfBytes is the string with the contents of s.
func (st *State) StringOfBytes(s VSlice) *Term {
	if s.Arr == 0 || st.Num.Le(s.Len, num.Const(0)) {
		return StrConst("")
	}
	for _, g := range st.Heap[s.Arr].Segs {
		if g.Src == nil || !st.Num.Le(g.Lo, s.Off) || !st.Num.Le(s.Off.Add(s.Len), g.Hi) {
			continue
		}
		d := st.Num.Norm(s.Off.Add(g.D))
		if g.Src.Op == "strcontent" && d.Is(0) && st.Num.Eq(s.Len, st.LenOf(g.Src.Args[0])) {
			return g.Src.Args[0]
		}
		t := MkTerm("substr", "", []*Term{g.Src}, d, st.Num.Norm(s.Len))
		t.T = types.Typ[types.String]
		return t
	}
	if t, ok := st.textOf(s); ok {
		return t
	}
	t := FreshTerm("string", types.Typ[types.String])
	st.Num.AddEq(st.LenOf(t), s.Len)
	return t
}

// ---- type assertions

func (in *Interp) typeAssert(fr *frame, x *ssa.TypeAssert) ([]*frame, []Outcome) {
	v := in.val(fr, x.X)
	T := x.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	var out []*frame
	var po []Outcome
	yes := func(f *frame, r Val) {
		if x.CommaOk {
			r = VStruct{F: []Val{r, VBool{True}}}
		}
		f.env[x] = r
		out = append(out, f)
	}
	no := func(f *frame) {
		if x.CommaOk {
			f.env[x] = VStruct{F: []Val{Zero(T), VBool{False}}}
			out = append(out, f)
			return
		}
		f.st.Note(x.Pos(), "failed type assertion")
		if in.H.RuntimePanic != nil {
			in.H.RuntimePanic(in, f.st, "type assertion to "+types.TypeString(T, nil), x.Pos())
		}
		po = append(po, Outcome{St: f.st, Panic: true, Val: runtimeErr("type assertion")})
	}
	switch r := v.(type) {
	case VNil:
		no(fr)
		return out, po
	case VIface:
		if toIface {
			if types.Implements(r.T, T.Underlying().(*types.Interface)) {
				yes(fr, v)
			} else {
				no(fr)
			}
		} else if types.Identical(r.T, T) {
			yes(fr, r.V)
		} else {
			no(fr)
		}
		return out, po
	case VRef:
		var a *Term
		if toIface {
			if T.Underlying().(*types.Interface).NumMethods() == 0 {
				a = nil
			} else {
				a = ImplAtom(fr.st.Find(r.T), T)
			}
		} else if has := concreteMethods(T); !subset(fr.st.knownMethods(fr.st.Find(r.T)), has) {
			no(fr) // T lacks a method which the value has
			return out, po
		} else {
			a = MkTerm("dyn", types.TypeString(T, nil), []*Term{fr.st.Find(r.T)})
			a.T = T
		}
		var f *Form
		if a == nil {
			f = Not(Atom(isNilAtom(r.T)))
		} else {
			f = Atom(a)
		}
		g := fr.clone()
		for _, s := range fr.st.Assume(f, true) {
			s.Note(x.Pos(), fmt.Sprintf("%v implements/is %s", r.T, types.TypeString(T, nil)))
			h := fr.with(s)
			if toIface {
				yes(h, v)
			} else {
				t := MkTerm("as", types.TypeString(T, nil), []*Term{s.Find(r.T)})
				yes(h, s.Canon(s.ValOf(t, T)))
			}
		}
		for _, s := range g.st.Assume(f, false) {
			s.Note(x.Pos(), fmt.Sprintf("%v is not %s", r.T, types.TypeString(T, nil)))
			no(g.with(s))
		}
		return out, po
	}
	panic(TooHard{fmt.Sprintf("type assertion on %T", v)})
}

// ---- calls

// callee resolves the operands of a call.
func (in *Interp) callee(fr *frame, c *ssa.CallCommon) (Val, *types.Func, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	if c.IsInvoke() {
		return in.val(fr, c.Value), c.Method, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b, nil, args
	}
	return in.val(fr, c.Value), nil, args
}

func (in *Interp) callCommon(fr *frame, c *ssa.CallCommon, pos token.Pos) []Outcome {
	fn, inv, args := in.callee(fr, c)
	return in.callValue(fr, fn, inv, args, c.Signature(), pos, -1, c)
}

// callValue calls fn (or method inv of fn) with args.
func (in *Interp) callValue(fr *frame, fn Val, inv *types.Func, args []Val, sig *types.Signature, pos token.Pos, recoverTo int, c *ssa.CallCommon) []Outcome {
	st := fr.st
	if b, ok := fn.(*ssa.Builtin); ok {
		return in.builtin(fr, b, args, sig, pos, c)
	}
	if v, ok := fn.(Val); ok {
		fn = st.Canon(v)
	}
	if inv != nil {
		switch r := fn.(type) {
		case VIface:
			m := in.Prog.LookupMethod(r.T, inv.Pkg(), inv.Name())
			if m == nil {
				panic(TooHard{"no method " + inv.Name()})
			}
			return in.CallFn(st, m, append([]Val{r.V}, args...), nil, pos, recoverTo)
		case VNil:
			if in.H.RuntimePanic != nil {
				in.H.RuntimePanic(in, st, "nil dereference (method call on nil interface)", pos)
			}
			st.Note(pos, "method call on nil interface")
			return []Outcome{{St: st, Panic: true, Val: runtimeErr("nil dereference")}}
		case VRef:
			f, po := in.guard(fr, Not(Atom(isNilAtom(r.T))), "nil dereference (method call on nil interface)", pos)
			if f == nil {
				return po
			}
			if in.H.Invoke != nil {
				if outs, ok := in.H.Invoke(in, f.st, f.st.Find(r.T), inv, args, pos); ok {
					return append(po, outs...)
				}
			}
			return append(po, in.Unknown(f.st, inv.FullName(), append([]Val{r}, args...), sig, pos)...)
		}
		panic(TooHard{fmt.Sprintf("%s: method call on %T", in.Pos(pos), fn)})
	}
	switch f := fn.(type) {
	case VFunc:
		return in.CallFn(st, f.Fn, args, f.Bind, pos, recoverTo)
	case VNil:
		if in.H.RuntimePanic != nil {
			in.H.RuntimePanic(in, st, "call of nil function", pos)
		}
		return []Outcome{{St: st, Panic: true, Val: runtimeErr("nil function")}}
	case VRef:
		g, po := in.guard(fr, Not(Atom(isNilAtom(f.T))), "call of nil function", pos)
		if g == nil {
			return po
		}
		if in.H.CallOpaque != nil {
			if outs, ok := in.H.CallOpaque(in, g.st, g.st.Find(f.T), sig, args, pos); ok {
				return append(po, outs...)
			}
		}
		return append(po, in.Unknown(g.st, "call of "+f.T.String(), args, sig, pos)...)
	}
	panic(TooHard{fmt.Sprintf("%s: call of %T", in.Pos(pos), fn)})
}

// CallFn calls a known function.
func (in *Interp) CallFn(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos, recoverTo int) []Outcome {
	if in.H.Call != nil {
		if outs, ok := in.H.Call(in, st, fn, args, pos); ok {
			return outs
		}
	}
	if outs, ok := in.model(st, fn, args, bind, pos); ok {
		return outs
	}
	if in.inlinable(fn) {
		return in.Call(st, fn, args, bind, recoverTo)
	}
	return in.Unknown(st, fn.String(), append(args, bind...), fn.Signature, pos)
}

func pkgOf(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

var inlinePkgs = map[string]bool{
	"github.com/chronos-tachyon/assert":     true,
	"github.com/chronos-tachyon/enumhelper": true,
	"io":                                    true, "net/textproto": true, "slices": true, "maps": true, "cmp": true,
	"bytes": true, "io/fs": true, "io/ioutil": true, "errors": true, "net/http": true, "sort": true,
}

// Interprets tells whether functions of a package of another module are
// interpreted; the other ones have models or are unknown.
func Interprets(path string) bool { return inlinePkgs[path] }

// InterpretsDir is Interprets for the directory of a package.
func InterpretsDir(dir string) bool {
	for p := range inlinePkgs {
		if strings.HasSuffix(dir, "/src/"+p) || strings.Contains(dir+"/", "/"+p+"@") {
			return true
		}
	}
	return false
}

func (in *Interp) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := pkgOf(fn)
	if p == "" || strings.HasPrefix(p, in.Repo) || fn.Synthetic != "" {
		return true
	}
	if p == "net/http" {
		r := fn.Signature.Recv()
		return r != nil && strings.HasSuffix(types.TypeString(r.Type(), nil), "net/http.Header")
	}
	if p == "bytes" || p == "sort" || p == "slices" || p == "errors" {
		// only small functions
		n := 0
		for _, b := range fn.Blocks {
			n += len(b.Instrs)
		}
		return n <= 120
	}
	return inlinePkgs[p]
}

// Unknown is a call about which nothing is known: it may return anything and
// change whatever it can reach.
func (in *Interp) Unknown(st *State, name string, args []Val, sig *types.Signature, pos token.Pos) []Outcome {
	in.Unknowns[in.Pos(pos)+": call of "+name]++
	for _, a := range args {
		in.Havoc(st, a)
	}
	return []Outcome{{St: st, Val: st.FreshResults(name, sig)}}
}

// FreshResults makes arbitrary results.
func (st *State) FreshResults(name string, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return VStruct{}
	case 1:
		return st.FreshVal(name, r.At(0).Type())
	}
	v := VStruct{}
	for i := 0; i < r.Len(); i++ {
		v.F = append(v.F, st.FreshVal(name, r.At(i).Type()))
	}
	return v
}

func ret(st *State, v Val) []Outcome { return []Outcome{{St: st, Val: v}} }

// Tup makes a tuple.
func Tup(vs ...Val) Val { return VStruct{F: vs} }

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Val, sig *types.Signature, pos token.Pos, c *ssa.CallCommon) []Outcome {
	st := fr.st
	argT := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if b.Name() == "len" {
				return ret(st, VInt{x.Len})
			}
			return ret(st, VInt{x.Cap})
		case VNil:
			return ret(st, VInt{num.Const(0)})
		case VRef:
			t := argT(0).Underlying()
			if isString(t) {
				return ret(st, VInt{st.LenOf(x.T)})
			}
			if s, ok := in.asSlice(st, x, t); ok {
				if b.Name() == "len" {
					return ret(st, VInt{s.Len})
				}
				return ret(st, VInt{s.Cap})
			}
			if _, ok := t.(*types.Map); ok {
				var out []Outcome
				for _, f := range in.nilMap(fr, x) {
					if f.isNil {
						out = append(out, Outcome{St: f.fr.st, Val: VInt{num.Const(0)}})
						continue
					}
					id := f.fr.st.Target(x.T, t)
					if in.H.MapAccess != nil {
						in.H.MapAccess(in, f.fr.st, id, nil, false, pos)
					}
					out = append(out, Outcome{St: f.fr.st, Val: VInt{f.fr.st.Heap[id].Map.Size}})
				}
				return out
			}
		case VPtr:
			o := st.Heap[x.Obj]
			if o.Kind == "map" {
				if in.H.MapAccess != nil {
					in.H.MapAccess(in, st, x.Obj, nil, false, pos)
				}
				return ret(st, VInt{o.Map.Size})
			}
			if o.Kind == "array" {
				return ret(st, VInt{o.ALen})
			}
		}
		l := st.FreshInt(b.Name(), types.Typ[types.Int])
		st.Num.AddLe(num.Const(0), l)
		st.Num.AddLe(l, num.Big)
		return ret(st, VInt{l})
	case "copy":
		return in.builtinCopy(fr, args, argT(0), argT(1), pos)
	case "append":
		return in.builtinAppend(fr, args, c, pos)
	case "delete":
		var out []Outcome
		for _, f := range in.nilMap(fr, args[0]) {
			if f.isNil {
				out = append(out, Outcome{St: f.fr.st, Val: VStruct{}})
				continue
			}
			id, ok := in.mapObj(f.fr.st, args[0], argT(0))
			if !ok {
				panic(TooHard{"delete"})
			}
			for _, s := range in.MapDelete(f.fr.st, id, args[1], pos) {
				out = append(out, Outcome{St: s, Val: VStruct{}})
			}
		}
		return out
	case "recover":
		i := fr.recoverTo
		if i >= 0 && i == len(st.Panics)-1 && !st.Panics[i].Recovered {
			ps := append([]PanicRec(nil), st.Panics...)
			ps[i].Recovered = true
			st.Panics = ps
			return ret(st, ps[i].V)
		}
		return ret(st, VNil{})
	case "panic":
		return []Outcome{{St: st, Panic: true, Val: args[0]}}
	case "print", "println":
		return ret(st, VStruct{})
	case "ssa:wrapnilchk":
		if _, isNil := args[0].(VNil); isNil {
			if in.H.RuntimePanic != nil {
				in.H.RuntimePanic(in, st, "nil receiver", pos)
			}
			return []Outcome{{St: st, Panic: true, Val: runtimeErr("nil receiver")}}
		}
		if r, ok := args[0].(VRef); ok {
			f, po := in.guard(fr, Not(Atom(isNilAtom(r.T))), "nil receiver", pos)
			if f == nil {
				return po
			}
			return append(po, Outcome{St: f.st, Val: args[0]})
		}
		return ret(st, args[0])
	case "min", "max":
		if isInt(sig.Results().At(0).Type()) {
			outs := []Outcome{{St: st, Val: args[0]}}
			for _, a := range args[1:] {
				var nx []Outcome
				for _, o := range outs {
					x, y := o.Val.(VInt).L, a.(VInt).L
					f := Le(x, y)
					s2 := o.St.Clone()
					for _, s := range o.St.Assume(f, true) {
						v := x
						if b.Name() == "max" {
							v = y
						}
						nx = append(nx, Outcome{St: s, Val: VInt{v}})
					}
					for _, s := range s2.Assume(f, false) {
						v := y
						if b.Name() == "max" {
							v = x
						}
						nx = append(nx, Outcome{St: s, Val: VInt{v}})
					}
				}
				outs = nx
			}
			return outs
		}
	case "clear":
		if p, ok := args[0].(VPtr); ok && st.Heap[p.Obj].Kind == "map" {
			in.changes(st, p.Obj, pos)
			m := st.Mut(p.Obj)
			m.Map = &MapData{}
			return ret(st, VStruct{})
		}
		if s, ok := args[0].(VSlice); ok {
			in.changes(st, s.Arr, pos)
			st.SetRange(s.Arr, s.Off, s.Off.Add(s.Len), nil, num.Lin{}, Zero(st.Heap[s.Arr].Type))
			return ret(st, VStruct{})
		}
	}
	in.Problem(pos, "builtin %s", b.Name())
	for _, a := range args {
		in.Havoc(st, a)
	}
	return ret(st, st.FreshResults(b.Name(), sig))
}

func (in *Interp) builtinCopy(fr *frame, args []Val, dt, srcT types.Type, pos token.Pos) []Outcome {
	st := fr.st
	d, ok := in.asSlice(st, args[0], dt)
	if !ok {
		panic(TooHard{"copy to untracked slice"})
	}
	var s VSlice
	if isString(srcT) {
		s = st.BytesOfString(args[1].(VRef).T, pos)
	} else {
		s, ok = in.asSlice(st, args[1], srcT)
		if !ok {
			panic(TooHard{"copy from untracked slice"})
		}
	}
	if d.Arr == 0 || s.Arr == 0 {
		return ret(st, VInt{num.Const(0)})
	}
	// n = min(len(d), len(s))
	var out []Outcome
	f := Le(s.Len, d.Len)
	fin := func(t *State, n num.Lin) {
		if !t.Num.Le(n, num.Const(0)) {
			if in.H.ArrayAccess != nil {
				in.H.ArrayAccess(in, t, d.Arr, true, pos)
				in.H.ArrayAccess(in, t, s.Arr, false, pos)
			}
			in.changes(t, d.Arr, pos)
			t.CopyRange(d.Arr, d.Off, s.Arr, s.Off, n)
		}
		out = append(out, Outcome{St: t, Val: VInt{n}})
	}
	g := st.Clone()
	for _, t := range st.Assume(f, true) {
		fin(t, s.Len)
	}
	for _, t := range g.Assume(f, false) {
		fin(t, d.Len)
	}
	return out
}

func (in *Interp) builtinAppend(fr *frame, args []Val, c *ssa.CallCommon, pos token.Pos) []Outcome {
	st := fr.st
	t := c.Args[0].Type()
	a, ok := in.asSlice(st, args[0], t)
	if !ok {
		panic(TooHard{"append to untracked slice"})
	}
	var b VSlice
	if isString(c.Args[1].Type()) {
		b = st.BytesOfString(args[1].(VRef).T, pos)
	} else {
		b, ok = in.asSlice(st, args[1], c.Args[1].Type())
		if !ok {
			panic(TooHard{"append of untracked slice"})
		}
	}
	if b.Arr == 0 {
		return ret(st, args[0])
	}
	el := t.Underlying().(*types.Slice).Elem()
	n := a.Len.Add(b.Len)
	var out []Outcome
	// in place
	if a.Arr != 0 {
		s := st.Clone()
		for _, s := range s.Assume(Le(n, a.Cap), true) {
			if in.H.ArrayAccess != nil {
				in.H.ArrayAccess(in, s, a.Arr, true, pos)
				in.H.ArrayAccess(in, s, b.Arr, false, pos)
			}
			in.changes(s, a.Arr, pos)
			s.CopyRange(a.Arr, a.Off.Add(a.Len), b.Arr, b.Off, b.Len)
			out = append(out, Outcome{St: s, Val: VSlice{Arr: a.Arr, Off: a.Off, Len: n, Cap: a.Cap, Nil: a.Nil}})
		}
	}
	// reallocated
	ss := []*State{st}
	if a.Arr != 0 {
		ss = st.Assume(Le(n, a.Cap), false)
	} else {
		// appending nothing to nil gives nil
		s0 := st.Clone()
		for _, s := range s0.Assume(Le(b.Len, num.Const(0)), true) {
			out = append(out, Outcome{St: s, Val: VNil{}})
		}
		ss = st.Assume(Le(b.Len, num.Const(0)), false)
	}
	for _, s := range ss {
		cp := s.FreshInt("cap", types.Typ[types.Int])
		s.Num.AddLe(n, cp)
		s.Num.AddLe(cp, num.Big)
		if !s.Num.Feasible() {
			continue
		}
		id := s.NewArray(el, cp, nil, "append", pos)
		if a.Arr != 0 {
			if in.H.ArrayAccess != nil {
				in.H.ArrayAccess(in, s, a.Arr, false, pos)
			}
			s.CopyRange(id, num.Const(0), a.Arr, a.Off, a.Len)
		}
		if in.H.ArrayAccess != nil {
			in.H.ArrayAccess(in, s, b.Arr, false, pos)
		}
		s.CopyRange(id, a.Len, b.Arr, b.Off, b.Len)
		out = append(out, Outcome{St: s, Val: VSlice{Arr: id, Len: n, Cap: cp}})
	}
	return out
}
