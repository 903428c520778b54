package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

// Models of strings.Builder, bytes.Buffer, encoding/base64, strings.Join and
// of the copying of maps.

func init() {
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		f := ".0"
		if strings.Contains(t, "Builder") {
			f = ".1"
		}
		models[t+".Write"] = bufWrite(f, true)
		models[t+".WriteString"] = bufWrite(f, true)
		models[t+".WriteByte"] = bufWrite(f, false)
		models[t+".Grow"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VStruct{}), true
		}
	}
	models["(*strings.Builder).Reset"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		p, ok := bufPtr(st, args[0])
		if !ok {
			return nil, false
		}
		st.WriteCells(p.Obj, p.Path+".1", VNil{})
		return ret(st, VStruct{}), true
	}
	models["(*strings.Builder).String"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		s, ok := bufSlice(in, st, args[0], ".1")
		if !ok {
			return nil, false
		}
		return ret(st, VRef{st.StringOfBytes(s)}), true
	}
	models["(*strings.Builder).Len"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		s, ok := bufSlice(in, st, args[0], ".1")
		if !ok {
			return nil, false
		}
		return ret(st, VInt{s.Len}), true
	}
	models["fmt.Fprintf"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		return fprint(in, st, args, pos, func() ([]Outcome, bool) { return sprintfModel(in, st, fn, args[1:], pos) })
	}
	models["strings.Join"] = joinModel
	models["(net/http.Header).Clone"] = cloneMap(true)
	models["maps.Clone"] = cloneMap(false)
	models["(*encoding/base64.Encoding).EncodeToString"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		s, ok := in.asSlice(st, args[1], fn.Signature.Params().At(0).Type())
		enc := st.termOf(args[0])
		if !ok || enc == nil {
			return ret(st, st.FreshResults("base64", fn.Signature)), true
		}
		return ret(st, VRef{Base64(st, enc, st.StringOfBytes(s))}), true
	}
	models["(*encoding/base64.Encoding).EncodedLen"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		enc := st.termOf(args[0])
		n, ok := args[1].(VInt)
		if enc == nil || !ok {
			return nil, false
		}
		return ret(st, VInt{base64Len(st, enc, n.L)}), true
	}
	models["(*encoding/base64.Encoding).Encode"] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		enc := st.termOf(args[0])
		d, ok := in.asSlice(st, args[1], fn.Signature.Params().At(0).Type())
		s, ok2 := in.asSlice(st, args[2], fn.Signature.Params().At(1).Type())
		if enc == nil || !ok || !ok2 {
			return nil, false
		}
		t := Base64(st, enc, st.StringOfBytes(s))
		n := st.LenOf(t)
		if d.Arr == 0 || !st.Num.Le(n, d.Len) {
			return nil, false
		}
		st.SetRange(d.Arr, d.Off, d.Off.Add(n), MkTerm("strcontent", "", []*Term{t}), num.Const(0).Sub(d.Off), nil)
		return ret(st, VStruct{}), true
	}
}

// Base64 is the encoding of s.
func Base64(st *State, enc, s *Term) *Term {
	t := MkTerm("pure", "base64", []*Term{enc, s})
	t.T = types.Typ[types.String]
	st.Num.AddEq(st.LenOf(t), base64Len(st, enc, st.LenOf(s)))
	return t
}

func base64Len(st *State, enc *Term, n num.Lin) num.Lin {
	t := MkTerm("pure", "base64len", []*Term{enc}, st.Num.Norm(n))
	l := num.Var(symOf(t))
	st.Num.AddLe(num.Const(0), l)
	st.Num.AddLe(n, l)
	st.Num.AddLe(l, n.Mul(2).AddK(4))
	return l
}

func bufPtr(st *State, v Val) (VPtr, bool) {
	p, ok := st.Canon(v).(VPtr)
	if !ok || p.Elem != nil || st.Heap[p.Obj] == nil || st.Heap[p.Obj].Kind != "cells" {
		return p, false
	}
	return p, true
}

// bufSlice is the slice in which a buffer keeps its contents.
func bufSlice(in *Interp, st *State, b Val, field string) (VSlice, bool) {
	p, ok := bufPtr(st, b)
	if !ok {
		return VSlice{}, false
	}
	return in.asSlice(st, st.Canon(st.Cell(st.Heap[p.Obj], p.Path+field)), types.NewSlice(types.Typ[types.Byte]))
}

// bufAppend appends v (bytes, a string or a byte) to a buffer.
func bufAppend(in *Interp, st *State, b Val, field string, v Val, pos token.Pos) (num.Lin, bool) {
	old, ok := bufSlice(in, st, b, field)
	if !ok {
		return num.Lin{}, false
	}
	p, _ := bufPtr(st, b)
	var add VSlice
	var one Val
	switch x := st.Canon(v).(type) {
	case VSlice:
		add = x
	case VNil:
	case VRef:
		add = st.BytesOfString(x.T, pos)
	case VInt:
		one = x
		add.Len = num.Const(1)
	default:
		return num.Lin{}, false
	}
	n := st.Num.Norm(old.Len.Add(add.Len))
	id := st.NewArray(types.Typ[types.Byte], n, nil, "memory of a buffer", pos)
	if old.Arr != 0 {
		st.CopyRange(id, num.Const(0), old.Arr, old.Off, old.Len)
	}
	switch {
	case one != nil:
		st.SetRange(id, old.Len, n, nil, num.Lin{}, one)
	case add.Arr != 0:
		st.CopyRange(id, old.Len, add.Arr, add.Off, add.Len)
	}
	st.WriteCells(p.Obj, p.Path+field, VSlice{Arr: id, Len: n, Cap: n})
	return add.Len, true
}

func bufWrite(field string, counts bool) modelFn {
	return func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		n, ok := bufAppend(in, st, args[0], field, args[1], pos)
		if !ok {
			return nil, false
		}
		if counts {
			return ret(st, Tup(VInt{n}, VNil{})), true
		}
		return ret(st, VNil{}), true
	}
}

// fprint writes what text makes to a buffer.
func fprint(in *Interp, st *State, args []Val, pos token.Pos, text func() ([]Outcome, bool)) ([]Outcome, bool) {
	w, ok := st.Canon(args[0]).(VIface)
	if !ok {
		return nil, false
	}
	field := map[string]string{"*strings.Builder": ".1", "*bytes.Buffer": ".0"}[types.TypeString(w.T, nil)]
	if field == "" {
		return nil, false
	}
	var out []Outcome
	outs, ok := text()
	if !ok {
		return nil, false
	}
	for _, o := range outs {
		n, ok := bufAppend(in, o.St, w.V, field, o.Val, pos)
		if !ok {
			return nil, false
		}
		out = append(out, ret(o.St, Tup(VInt{n}, VNil{}))...)
	}
	return out, true
}

func joinModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	vs, ok := in.varargs(st, st.Canon(args[0]))
	sep, ok2 := st.Canon(args[1]).(VRef)
	if !ok || !ok2 {
		return ret(st, VRef{FreshTerm("joined", types.Typ[types.String])}), true
	}
	t := StrConst("")
	for i, v := range vs {
		r, is := st.Canon(v).(VRef)
		if !is {
			return ret(st, VRef{FreshTerm("joined", types.Typ[types.String])}), true
		}
		if i > 0 {
			t = Cat(st, t, sep.T)
		}
		t = Cat(st, t, r.T)
	}
	return ret(st, VRef{t}), true
}

// cloneMap makes a new map with the same entries; if deep, their values are
// slices, which are copied too.
func cloneMap(deep bool) modelFn {
	return func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		typ := types.Type(nil)
		if fn.Signature.Recv() != nil {
			typ = fn.Signature.Recv().Type()
		} else {
			typ = fn.Signature.Params().At(0).Type()
		}
		mt, is := typ.Underlying().(*types.Map)
		if !is {
			return nil, false
		}
		var out []Outcome
		fr := &frame{st: st, env: map[ssa.Value]Val{}}
		for _, f := range in.nilMap(fr, st.Canon(args[0])) {
			if f.isNil {
				out = append(out, ret(f.fr.st, VNil{})...)
				continue
			}
			id, ok := in.mapObj(f.fr.st, f.fr.st.Canon(args[0]), typ)
			if !ok {
				return nil, false
			}
			if in.H.MapAccess != nil {
				in.H.MapAccess(in, f.fr.st, id, nil, false, pos)
			}
			sts := []*State{f.fr.st}
			for i := range f.fr.st.Heap[id].Map.Ents {
				var nx []*State
				for _, s := range sts {
					for _, h := range in.presence(s, id, i) {
						nx = append(nx, h.st)
					}
				}
				sts = nx
			}
			for _, s := range sts {
				src := s.Heap[id].Map
				var root *Term
				if src.Open {
					root = FreshTerm("entries of a clone", nil)
				}
				d := s.NewMap(typ, root, "clone", pos)
				var es []Ent
				for _, e := range src.Ents {
					if e.Generic {
						continue
					}
					v := s.Canon(e.V)
					if e.P.Op != "f" && deep {
						x, ok := in.asSlice(s, v, mt.Elem())
						if !ok {
							return nil, false
						}
						if x.Arr != 0 {
							a := s.NewArray(s.Heap[x.Arr].Type, x.Len, nil, "values of a clone", pos)
							s.CopyRange(a, num.Const(0), x.Arr, x.Off, x.Len)
							v = VSlice{Arr: a, Len: x.Len, Cap: x.Len, Nil: x.Nil}
						}
					}
					es = append(es, Ent{K: e.K, P: e.P, V: v, Mod: true})
				}
				o := s.Mut(d)
				o.Fresh = true
				o.Map.Ents = es
				o.Map.Size = src.Size
				out = append(out, ret(s, VPtr{Obj: d})...)
			}
		}
		return out, true
	}
}

// textOf is the string of elements [off, off+n) of an array made of several
// known parts.
func (st *State) textOf(s VSlice) (*Term, bool) {
	pos, end := s.Off, s.Off.Add(s.Len)
	segs := st.Heap[s.Arr].Segs
	used := make([]bool, len(segs))
	out := StrConst("")
	for !st.Num.Le(end, pos) {
		pick := -1
		for i, g := range segs {
			if used[i] || st.Num.Le(g.Hi, pos) || !st.Num.Le(g.Lo, pos) || !st.Num.Le(pos, g.Hi) {
				continue
			}
			if pick < 0 || st.Num.Eq(g.Lo, pos) && !st.Num.Eq(segs[pick].Lo, pos) {
				pick = i
			}
		}
		if pick < 0 {
			return nil, false
		}
		used[pick] = true
		g := segs[pick]
		hi := g.Hi
		switch {
		case st.Num.Le(g.Hi, end):
		case st.Num.Le(end, g.Hi):
			hi = end
		default:
			return nil, false
		}
		n := st.Num.Norm(hi.Sub(pos))
		switch {
		case g.Src != nil:
			d := st.Num.Norm(pos.Add(g.D))
			if g.Src.Op == "strcontent" && d.Is(0) && st.Num.Eq(n, st.LenOf(g.Src.Args[0])) {
				out = Cat(st, out, g.Src.Args[0])
				break
			}
			t := MkTerm("substr", "", []*Term{g.Src}, d, n)
			t.T = types.Typ[types.String]
			out = Cat(st, out, t)
		case g.V != nil:
			x, is := g.V.(VInt)
			if !is || !n.IsConst() || n.K > 64 {
				return nil, false
			}
			c := st.Num.Norm(x.L)
			if !c.IsConst() {
				return nil, false
			}
			for i := int64(0); i < n.K; i++ {
				out = Cat(st, out, StrConst(fmt.Sprintf("%c", rune(c.K))))
				if c.K > 127 {
					return nil, false
				}
			}
		default:
			return nil, false
		}
		pos = hi
	}
	return out, true
}
