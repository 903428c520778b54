package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// The client of the mock reader (M01): New with a script of arbitrary length,
// one arbitrary element of which, at an arbitrary index, was made by one of the
// Expect functions with arbitrary arguments, the others being arbitrary values.
// The abstract states of the reader are closed under all its methods with
// arbitrary arguments; every method is checked in the states in which the
// chosen element or the end of the script is due.
//
// Ghost state: pos is the number of elements consumed.
type mockClient struct {
	p                  *Program
	r                  *Report
	in                 *ai.Interp
	readerT, expT      types.Type
	errT, listT        types.Type
	i, n               num.Lin // index of the chosen element, length of the script
	kind               string
	elem               Val
	args               []Val
	op                 string
	mark               ai.ObjID
	watching           bool
	written, unguarded map[string]token.Pos
}

// the calls of a reader and the functions that make their expectations; the
// first nargs parameters of those are the arguments of the call.
var mockCalls = []struct {
	name  string
	nargs int
}{{"Mark", 1}, {"Stat", 0}, {"Read", 1}, {"ReadAt", 2}, {"Seek", 2}, {"Close", 0}}

const mockPkg = "internal/mockreader"

func (c *mockClient) ob(st *State, rule string, good bool, f string, a ...interface{}) bool {
	return c.r.Ob(c.in, "M01", rule, c.op, good, st, f, a...)
}

// expect interprets an Expect function with arbitrary arguments.
func (c *mockClient) expect(st *State, name, tag string) (outs []Outcome, args []Val) {
	fn := c.p.Func(mockPkg, "Expect"+name)
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		args = append(args, st.FreshVal(fmt.Sprintf("%s.%s", tag, ps.At(i).Name()), ps.At(i).Type()))
	}
	return c.in.CallFn(st, fn, args, nil, noPos, -1), args
}

// matches is the condition under which calls with arguments a and b are the same.
func matches(st *State, n int, a, b []Val) *ai.Form {
	f := ai.True
	for i := 0; i < n; i++ {
		if x, is := a[i].(ai.VSlice); is {
			f = ai.And(f, ai.EqL(x.Len, b[i].(ai.VSlice).Len))
		} else {
			f = ai.And(f, st.EqForm(a[i], b[i]))
		}
	}
	return f
}

// sameVal compares values structurally, slices by identity.
func sameVal(st *State, a, b Val) bool {
	a, b = st.Canon(a), st.Canon(b)
	if x, is := a.(ai.VStruct); is {
		y, is := b.(ai.VStruct)
		if !is || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(st, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	if x, is := a.(ai.VSlice); is {
		if y, is := b.(ai.VSlice); is {
			return x.Arr == y.Arr && st.Num.Eq(x.Off, y.Off) && st.Num.Eq(x.Len, y.Len)
		}
	}
	if x, is := a.(ai.VBool); is {
		y, is := b.(ai.VBool)
		return is && (x.F.String() == y.F.String() || st.Same(a, b))
	}
	return st.Same(a, b)
}

// Mock runs the analysis of the mock reader.
func (p *Program) Mock(r *Report) *ai.Interp {
	c := &mockClient{p: p, r: r, in: p.NewInterp(), written: map[string]token.Pos{}, unguarded: map[string]token.Pos{}}
	c.readerT = types.NewPointer(p.Type(mockPkg, "MockReader"))
	c.expT = p.Type(mockPkg, "Expectation")
	c.errT = p.Type(mockPkg, "ExpectationFailedError")
	c.listT = types.NewSlice(c.expT)
	c.in.H.Lock = c.lock
	c.in.H.Load = func(in *ai.Interp, st *State, p ai.VPtr, pos token.Pos) { c.access(st, p, false, pos) }
	c.in.H.Store = func(in *ai.Interp, st *State, p ai.VPtr, v Val, pos token.Pos) { c.access(st, p, true, pos) }
	c.comparisons()
	for _, m := range append([]string{"nothing"}, names(mockCalls)...) {
		c.script(m)
	}
	for cell, pos := range c.unguarded {
		_, bad := c.written[cell]
		c.op = "MockReader"
		c.ob(nil, "the position is accessed under the lock", !bad, "%s, which calls change, is accessed without the lock at %s", cell, c.in.Pos(pos))
	}
	c.ob(nil, "the position is accessed under the lock", len(c.written) > 0, "no call changes the reader")
	c.nilReader()
	c.wrappers()
	c.op = ""
	return c.in
}

func names(l []struct {
	name  string
	nargs int
}) (out []string) {
	for _, x := range l {
		out = append(out, x.name)
	}
	return out
}

// comparisons checks Expectation.Matches for any two expectations.
func (c *mockClient) comparisons() {
	m := c.p.Methods(c.expT)["Matches"]
	if m == nil {
		panic(Anchor{"method Matches of Expectation"})
	}
	for _, a := range mockCalls {
		for _, b := range mockCalls {
			c.op = "Expect" + a.name + ".Matches(Expect" + b.name + ")"
			st := ai.NewState()
			xs, xa := c.expect(st, a.name, "x")
			for _, x := range xs {
				if x.Panic {
					continue
				}
				ys, ya := c.expect(x.St, b.name, "y")
				for _, y := range ys {
					if y.Panic {
						continue
					}
					for _, o := range c.in.CallFn(y.St, m, []Val{x.Val, y.Val}, nil, noPos, -1) {
						if !c.ob(o.St, "expectations are compared by kind and arguments", !o.Panic, "Matches panics") {
							continue
						}
						f := o.Val.(ai.VBool).F
						want := ai.False
						if a.name == b.name {
							want = matches(o.St, a.nargs, xa, ya)
						}
						for _, s := range o.St.Clone().Assume(f, true) {
							c.ob(s, "expectations are compared by kind and arguments", s.Decide(want) > 0, "a call that is not the expected one matches")
						}
						for _, s := range o.St.Clone().Assume(f, false) {
							c.ob(s, "expectations are compared by kind and arguments", s.Decide(want) < 0, "the expected call does not match")
						}
					}
				}
			}
		}
	}
}

// script analyses a script whose element i was made by the Expect function for
// kind.
func (c *mockClient) script(kind string) {
	c.kind = kind
	st := ai.NewState()
	var made []Outcome
	c.args = nil
	c.op = "Expect" + kind
	if kind == "nothing" {
		made = []Outcome{ok(st, ai.Zero(c.expT))}
	} else {
		made, c.args = c.expect(st, kind, "expected")
	}
	for _, m := range made {
		st := m.St
		if kind == "Read" || kind == "ReadAt" {
			n := lin(c.args[len(c.args)-2])
			p := c.args[0].(ai.VSlice)
			f := ai.And(ai.Le(k(0), n), ai.Le(n, p.Len))
			d := st.Decide(f)
			c.ob(st, "a script cannot return more bytes than it has", m.Panic && d < 0 || !m.Panic && d > 0, "%s with count %s of %s bytes: panic %v", c.op, st.ShowVal(vint(n)), st.ShowVal(vint(p.Len)), m.Panic)
		} else {
			c.ob(st, "an expectation can be made of any arguments", !m.Panic, "%s panics", c.op)
		}
		if m.Panic {
			continue
		}
		c.elem = m.Val
		list := st.FreshVal("script", c.listT).(ai.VSlice)
		c.n = list.Len
		c.i = st.FreshInt("i", types.Typ[types.Int])
		st.Num.AddLe(k(0), c.i)
		st.Num.AddLe(c.i.AddK(1), c.n)
		// the capacity is of no interest, but more than the length
		st.SetRange(list.Arr, list.Off.Add(c.i), list.Off.Add(c.i).AddK(1), nil, num.Lin{}, c.elem)
		st.Ghost["pos"] = vint(k(0))
		st.Ghost["held"], st.Ghost["sections"] = vint(k(0)), vint(k(0))
		tab := c.in.NewTable()
		tab.From(st)
		tab.Key = func(s *State, _ []Val) string { return c.phase(s) }
		c.op = "New"
		for _, o := range c.in.CallFn(st, c.p.Func(mockPkg, "New"), []Val{list}, nil, noPos, -1) {
			if c.ob(o.St, "a reader can be made", !o.Panic, "New panics") {
				for _, s := range c.phases(o.St) {
					tab.Add(s, []Val{o.Val}, c.op)
				}
			}
		}
		ms := c.p.Methods(c.readerT)
		var ns []string
		for n := range ms {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for e := tab.Next(); e != nil; e = tab.Next() {
			for _, n := range ns {
				c.call(tab, e, n, ms[n])
			}
		}
	}
}

// phase tells where pos is relative to the chosen element.
func (c *mockClient) phase(s *State) string {
	pos := G(s, "pos")
	switch {
	case s.Num.Lt(pos, c.i):
		return "before"
	case s.Num.Eq(pos, c.i):
		return "at"
	case s.Num.Eq(pos, c.n):
		return "end"
	case s.Num.Lt(c.i, pos) && s.Num.Lt(pos, c.n):
		return "after"
	}
	return "?"
}

func (c *mockClient) phases(st *State) (out []*State) {
	pos := G(st, "pos")
	for _, f := range []*ai.Form{ai.Lt(pos, c.i), ai.EqL(pos, c.i), ai.And(ai.Lt(c.i, pos), ai.Lt(pos, c.n)), ai.EqL(pos, c.n)} {
		for _, s := range st.Clone().Assume(f, true) {
			if s.Num.Feasible() {
				out = append(out, s)
			}
		}
	}
	return out
}

// call checks one method from one state.
func (c *mockClient) call(tab *ai.Table, e *ai.Entry, name string, m *ssa.Function) {
	st := e.St.Clone()
	st.Trace = nil
	phase := e.Key
	nargs := -1
	for _, x := range mockCalls {
		if x.name == name {
			nargs = x.nargs
		}
	}
	c.op = "(*MockReader)." + name
	ps := m.Signature.Params()
	var args []Val
	for i := 0; i < ps.Len(); i++ {
		args = append(args, st.FreshVal(fmt.Sprintf("%s.%s", name, ps.At(i).Name()), ps.At(i).Type()))
	}
	pos := G(st, "pos")
	st.Ghost["sections"] = vint(k(0))
	c.mark = ai.MarkNow().Obj
	c.watching = true
	outs := c.in.CallFn(st, m, append([]Val{e.Roots[0]}, args...), nil, noPos, -1)
	c.watching = false
	for _, o := range outs {
		s := o.St
		c.ob(s, "a call is one critical section", isZero(s, "held") && s.Num.Le(G(s, "sections"), k(1)), "the lock is taken %s times and left held %s times", s.ShowVal(s.Ghost["sections"]), s.ShowVal(s.Ghost["held"]))
		if nargs >= 0 {
			switch phase {
			case "at":
				c.result(o, name, nargs, args, pos)
			case "end":
				c.ob(s, "an exhausted script fails every call", o.Panic && c.failure(s, o.Val, c.n, ai.Zero(c.expT)), "%s after the end of the script: panic %v, %s", name, o.Panic, s.ShowVal(o.Val))
			}
			if phase != "end" {
				s.Ghost["pos"] = vint(s.Num.Norm(pos.AddK(1)))
			}
		}
		s.Ghost["sections"] = vint(k(0))
		for _, x := range c.phases(s) {
			tab.Add(x, e.Roots, c.op)
		}
	}
}

// failure tells whether v is the error for an expectation at index.
func (c *mockClient) failure(s *State, v Val, index num.Lin, want Val) bool {
	i, is := s.Canon(v).(ai.VIface)
	if !is || !types.Identical(i.T, c.errT) {
		return false
	}
	x, is := s.Canon(i.V).(ai.VStruct)
	u := c.errT.Underlying().(*types.Struct)
	if !is || len(x.F) != u.NumFields() {
		return false
	}
	good := 0
	for k := range x.F {
		switch u.Field(k).Name() {
		case "Index":
			n, is := s.Canon(x.F[k]).(ai.VInt)
			if is && s.Num.Eq(n.L, index) {
				good++
			}
		case "Expect":
			if sameVal(s, x.F[k], want) {
				good++
			}
		}
	}
	return good == 2
}

// result checks a call when the chosen element is due.
func (c *mockClient) result(o Outcome, name string, nargs int, args []Val, pos num.Lin) {
	s := o.St
	want := ai.False
	if name == c.kind {
		want = matches(s, nargs, c.args, args)
	}
	if o.Panic {
		c.ob(s, "a matching call succeeds", s.Decide(want) < 0, "%s panics although Expect%s is due with the same arguments", name, c.kind)
		c.ob(s, "a failing call names its position", c.failure(s, o.Val, c.i, c.elem), "%s panics with %s", name, s.ShowVal(o.Val))
		return
	}
	if !c.ob(s, "a call that does not match panics", s.Decide(want) > 0, "%s returns although Expect%s is due, perhaps with other arguments", name, c.kind) {
		return
	}
	res := c.args[nargs:]
	good := true
	if len(res) == 1 {
		good = s.Same(o.Val, res[0])
	} else {
		for i := range res {
			good = good && s.Same(tup(o.Val, i), res[i])
		}
	}
	c.ob(s, "the scripted results are returned", good, "%s returns %s", name, s.ShowVal(o.Val))
	if name == "Read" || name == "ReadAt" {
		dst, src := args[0].(ai.VSlice), c.args[0].(ai.VSlice)
		n := lin(res[0])
		own := ai.MkTerm("none", "", nil)
		for _, g := range s.Heap[src.Arr].Segs {
			if g.Src != nil {
				own = g.Src
			}
		}
		c.ob(s, "the scripted bytes are delivered", s.Holds(dst.Arr, dst.Off, dst.Off.Add(n), own, src.Off.Sub(dst.Off)), "%s does not deliver the scripted bytes", name)
	}
}

func (c *mockClient) lock(in *ai.Interp, st *State, p ai.VPtr, op string, pos token.Pos) {
	if !c.watching || p.Obj > c.mark {
		return
	}
	switch op {
	case "Lock", "RLock":
		bump(st, "held")
		bump(st, "sections")
	default:
		st.Ghost["held"] = vint(st.Num.Norm(G(st, "held").AddK(-1)))
	}
}

func (c *mockClient) access(st *State, p ai.VPtr, write bool, pos token.Pos) {
	o := st.Heap[p.Obj]
	if !c.watching || p.Obj > c.mark || o == nil || o.Kind != "cells" || p.Elem != nil {
		return
	}
	paths := ai.Leaves(o.Type, p.Path)
	for _, f := range paths {
		if t := ai.TypeAt(o.Type, f); ai.IsLock(t) {
			continue
		}
		cell := ai.FieldName(o.Type, f)
		if write {
			c.written[cell] = pos
		}
		if isZero(st, "held") {
			c.unguarded[cell] = pos
		}
	}
}

// nilReader checks that marking is optional.
func (c *mockClient) nilReader() {
	c.op = "(*MockReader)(nil).Mark"
	m := c.p.Methods(c.readerT)["Mark"]
	st := ai.NewState()
	a := st.FreshVal("str", m.Signature.Params().At(0).Type())
	st.Ghost["held"], st.Ghost["sections"] = vint(k(0)), vint(k(0))
	for _, o := range c.in.CallFn(st, m, []Val{ai.VNil{}, a}, nil, noPos, -1) {
		c.ob(o.St, "a nil reader can be marked", !o.Panic, "Mark on a nil reader panics")
	}
}

// wrappers checks the types that hide capabilities.
func (c *mockClient) wrappers() {
	caps := []string{"Stat", "Seek", "ReadAt"}
	for bits := 0; bits < 8; bits++ {
		name := fmt.Sprintf("Wrapper%03b", bits)
		t := c.p.Type(mockPkg, name)
		want := map[string]bool{"Read": true, "Close": true}
		for i, m := range caps {
			if bits>>(2-i)&1 != 0 {
				want[m] = true
			}
		}
		c.op = name
		for _, recv := range []types.Type{t, types.NewPointer(t)} {
			ms := c.p.Methods(recv)
			for n := range ms {
				c.ob(nil, "a wrapper has the calls its name says", want[n], "%s has the method %s", short(recv), n)
			}
			for n := range want {
				c.ob(nil, "a wrapper has the calls its name says", ms[n] != nil, "%s has no method %s", short(recv), n)
			}
		}
		st := ai.NewState()
		inner := ai.Named("inner", c.readerT)
		st.Facts[ai.IsNilAtom(inner)] = false
		w := ai.VStruct{}
		u, is := t.Underlying().(*types.Struct)
		if !is {
			panic(ai.TooHard{Why: name + " is not a struct"})
		}
		for i := 0; i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), c.readerT) {
				w.F = append(w.F, ref(inner))
			} else {
				w.F = append(w.F, st.FreshVal(u.Field(i).Name(), u.Field(i).Type()))
			}
		}
		var callee string
		var got []Val
		var calls int
		var result Val
		c.in.H.Call = func(in *ai.Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			if len(args) == 0 || fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), c.readerT) || !st.Same(args[0], ref(inner)) {
				return nil, false
			}
			callee, got = fn.Name(), args[1:]
			calls++
			result = st.FreshResults(fn.Name(), fn.Signature)
			return []Outcome{ok(st, result)}, true
		}
		for n, m := range c.p.Methods(t) {
			if !want[n] {
				continue
			}
			c.op = name + "." + n
			s := st.Clone()
			var args []Val
			ps := m.Signature.Params()
			for i := 0; i < ps.Len(); i++ {
				args = append(args, s.FreshVal(ps.At(i).Name(), ps.At(i).Type()))
			}
			callee, got, calls, result = "", nil, 0, nil
			for _, o := range c.in.CallFn(s, m, append([]Val{w}, args...), nil, noPos, -1) {
				good := !o.Panic && calls == 1 && callee == n && len(got) == len(args) && result != nil && sameVal(o.St, o.Val, result)
				for i := range args {
					good = good && i < len(got) && sameVal(o.St, got[i], args[i])
				}
				c.ob(o.St, "a wrapper forwards its calls unchanged", good, "%s calls %s %d times, perhaps with other arguments or results", n, callee, calls)
			}
		}
		c.in.H.Call = nil
	}
}
