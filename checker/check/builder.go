package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// The client of response.Builder (R05, R06, R07, R11 and the builder's part of
// R10).  What a builder holds is observed through its accessors only.  The
// abstract states of a builder are closed under all its exported methods with
// arbitrary arguments; every method is checked from every state.  Between two
// calls the caller may change the header map that Headers returned, so that its
// contents are arbitrary: they are represented by the headers a method names
// and one more, chosen arbitrarily but fixed.
type builderClient struct {
	p  *Program
	r  *Report
	in *ai.Interp

	builderT, respT, bodyT, genT, headerT, stringsT, errT types.Type

	op      string
	other   Val // the arbitrary header name
	defGen  *ai.Term
	entries map[string]*shape
	order   []*shape
	stores  int
}

// shape is an abstract state of a builder.
type shape struct {
	key    string
	leaves []leaf
	ints   map[string][2]int64
	dirty  bool
	n      int
	from   string
}

// leaf is a cell of the builder or of an object it owns.
type leaf struct {
	path string // "obj:cell"
	kind string // "zero", "nonzero", "nil", "value", "map", "true", "false", "any", "obj"
	typ  types.Type
	obj  types.Type // kind "obj": the type of the object
	same string     // path of an earlier leaf with the same value
}

const unbounded = int64(1) << 40

// bview is what the accessors of a builder (or response) tell.
type bview struct {
	status, body, err, gen, hdrs Val
}

// hdr is an expectation about one header.
type hdr struct {
	present bool
	val     Val
}

func (p *Program) newBuilderClient(r *Report) *builderClient {
	c := &builderClient{p: p, r: r, in: p.NewInterp(), entries: map[string]*shape{}}
	c.builderT = p.Type("response", "Builder")
	c.respT = p.Type("response", "Response")
	c.genT = p.Type("response", "PageGenerator")
	c.bodyT = p.Type("body", "Body")
	c.headerT = p.Std("net/http", "Header")
	c.stringsT = types.NewSlice(types.Typ[types.String])
	c.errT = types.Universe.Lookup("error").Type()
	c.other = ref(ai.Named("someHeader", types.Typ[types.String]))
	c.defGen = ai.Named("DefaultPageGenerator", c.genT)
	if p.Pkgs["response"].Var("DefaultPageGenerator") == nil {
		panic(Anchor{"variable response.DefaultPageGenerator"})
	}
	c.in.H.Global = func(in *ai.Interp, st *State, g *ssa.Global) (Val, bool) {
		if g.Pkg == p.Pkgs["response"] && g.Name() == "DefaultPageGenerator" {
			return ref(c.defGen), true
		}
		return nil, false
	}
	c.in.H.Call = c.call
	c.in.H.Invoke = c.invoke
	count := func() { c.stores++ }
	c.in.H.Store = func(in *ai.Interp, st *State, x ai.VPtr, v Val, pos token.Pos) { count() }
	c.in.H.MapAccess = func(in *ai.Interp, st *State, m ai.ObjID, key Val, write bool, pos token.Pos) {
		if write {
			count()
		}
	}
	return c
}

func (c *builderClient) ob(st *State, prop, rule string, good bool, f string, a ...interface{}) bool {
	return c.r.Ob(c.in, prop, rule, "response.(*Builder)."+c.op, good, st, f, a...)
}

// ---- environment

// ctorTerm is the body that a payload constructor makes of arguments.
func ctorTerm(name string, args []*ai.Term, t types.Type) *ai.Term {
	x := ai.MkTerm("frombody", name, args)
	x.T = t
	return x
}

func (c *builderClient) call(in *ai.Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	pre := Mod + "/body.From"
	if !strings.HasPrefix(fn.String(), pre) || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	st.Note(pos, "body."+fn.Name())
	st.Ghost["made"] = vint(G(st, "made").AddK(1))
	var ts []*ai.Term
	for _, a := range args {
		ts = append(ts, c.termOf(st, a))
	}
	t := ctorTerm(fn.Name(), ts, c.bodyT)
	st.Facts[ai.IsNilAtom(t)] = false
	outs := []Outcome{}
	if strings.Contains(fn.Name(), "JSON") || strings.Contains(fn.Name(), "Proto") {
		b := st.Clone()
		b.Note(pos, "the encoder panics")
		b.Ghost["envPanic"] = vint(k(1))
		outs = append(outs, panicking(b, ref(envPanic)))
	}
	return append(outs, ok(st, ref(t))), true
}

// termOf names an argument.
func (c *builderClient) termOf(st *State, v Val) *ai.Term {
	switch x := st.Canon(v).(type) {
	case ai.VRef:
		return st.Find(x.T)
	case ai.VNil:
		return ai.MkTerm("nil", "", nil)
	case ai.VSlice:
		if b, is := types.Unalias(st.Heap[x.Arr].Type).Underlying().(*types.Basic); is && b.Kind() == types.Uint8 && x.Arr != 0 {
			return ai.MkTerm("bytes", "", []*ai.Term{st.StringOfBytes(x)})
		}
	}
	return ai.FreshTerm("argument", nil)
}

func (c *builderClient) invoke(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	sig := m.Type().(*types.Signature)
	pn := func(what string) Outcome {
		b := st.Clone()
		b.Note(pos, what+" panics")
		b.Ghost["envPanic"] = vint(k(1))
		return panicking(b, ref(envPanic))
	}
	switch m.Name() {
	case "GenerateRedirectPage", "GenerateErrorPage":
		st.Note(pos, "page generator: "+m.Name())
		out := []Outcome{pn(m.Name())}
		good := len(args) == 2 && st.Same(ref(recv), st.Ghost["pre.gen"]) && st.Same(args[0], st.Ghost["arg.0"]) && st.Same(args[1], st.Ghost["gen.arg"])
		c.ob(st, "R10", "the page generator is asked once for the page", good && isZero(st, "gen.calls") && m.Name() == c.genMethod(), "%s of %s is called with %s", m.Name(), st.ShowVal(ref(recv)), showVals(st, args))
		bump(st, "gen.calls")
		h, b := ai.Named("generated headers", c.headerT), ai.Named("generated body", c.bodyT)
		for _, nilBody := range []bool{false, true} {
			for _, nilMap := range []bool{false, true} {
				x := st.Clone()
				x.Facts[ai.IsNilAtom(b)] = nilBody
				x.Facts[ai.IsNilAtom(h)] = nilMap
				if nilMap {
					out = append(out, ok(x, ai.Tup(ref(h), ref(b))))
					continue
				}
				x.Target(h, c.headerT)
				for _, g := range in.MapGet(x, ref(h), c.headerT, c.other) {
					out = append(out, ok(g.St, ai.Tup(ref(h), ref(b))))
				}
			}
		}
		return out, true
	case "BytesRemaining":
		t := ai.MkTerm("remaining", "", []*ai.Term{recv})
		t.T = sig.Results().At(0).Type()
		n := st.IntOf(t, t.T)
		st.Num.AddLe(k(-1), n)
		return []Outcome{ok(st, vint(n)), pn("BytesRemaining")}, true
	case "Copy":
		st.Note(pos, "body: Copy")
		c.ob(st, "R07", "the body is copied once", isZero(st, "copy.n") && st.Same(ref(recv), st.Ghost["pre.body"]), "%s is copied", st.ShowVal(ref(recv)))
		bump(st, "copy.n")
		bad := st.Clone()
		t := ai.MkTerm("copyof", "", []*ai.Term{recv})
		t.T = c.bodyT
		st.Facts[ai.IsNilAtom(t)] = false
		e := bad.NonNilErr("copyErr")
		bad.Ghost["copy.err"] = e
		bad.Note(pos, "the body cannot be copied")
		return []Outcome{ok(st, ai.Tup(ref(t), ai.VNil{})), ok(bad, ai.Tup(ai.VNil{}, e)), pn("Copy")}, true
	}
	return nil, false
}

func (c *builderClient) genMethod() string {
	return map[string]string{"RedirectPage": "GenerateRedirectPage", "ErrorPage": "GenerateErrorPage"}[c.op]
}

func showVals(st *State, vs []Val) string {
	var out []string
	for _, v := range vs {
		out = append(out, st.ShowVal(v))
	}
	return strings.Join(out, ", ")
}

// ---- shapes

// shapeOf reads off the abstract states of builder b in st.
func (c *builderClient) shapesOf(st *State, b ai.VPtr, from string) []*shape {
	var out []*shape
	type cell struct {
		p    ai.VPtr
		name string
	}
	var cells func(st *State, queue []cell, s *shape, seen map[string]string)
	cells = func(st *State, queue []cell, s *shape, seen map[string]string) {
		for i := 0; i < len(queue); i++ {
			q := queue[i]
			o := st.Heap[q.p.Obj]
			typ := ai.TypeAt(o.Type, q.p.Path)
			again := func(f *ai.Form) bool {
				if st.Decide(f) != 0 {
					return false
				}
				other := st.Clone()
				rest := append([]cell(nil), queue[i:]...)
				for _, x := range st.Assume(f, true) {
					cells(x, rest, s.clone(), cpSeen(seen))
				}
				for _, x := range other.Assume(f, false) {
					cells(x, rest, s.clone(), cpSeen(seen))
				}
				return true
			}
			v := st.Cell(o, q.p.Path)
			l := leaf{path: q.name, typ: typ, kind: "any"}
			switch x := v.(type) {
			case ai.VInt:
				if again(ai.EqL(x.L, k(0))) {
					return
				}
				l.kind = "nonzero"
				if st.Num.Eq(x.L, k(0)) {
					l.kind = "zero"
				} else {
					s.ints[q.name] = bounds(st, x.L)
				}
			case ai.VBool:
				if again(x.F) {
					return
				}
				l.kind = "false"
				if st.Decide(x.F) > 0 {
					l.kind = "true"
				}
			case ai.VNil:
				l.kind = "nil"
			case ai.VRef, ai.VPtr, ai.VIface:
				if isString(typ) {
					break
				}
				if again(st.EqForm(v, ai.VNil{})) {
					return
				}
				if st.IsNil(v) > 0 {
					l.kind = "nil"
					break
				}
				l.kind = "value"
				id := ""
				if _, is := typ.Underlying().(*types.Map); is {
					l.kind = "map"
					m, _ := mapID(c.in, st, v, typ)
					id = fmt.Sprint("map", m)
				} else if p, is := v.(ai.VPtr); is {
					po := st.Heap[p.Obj]
					if p.Path != "" || po.Kind != "cells" {
						panic(ai.TooHard{Why: "a builder that refers to part of an object"})
					}
					l.kind, l.obj = "obj", po.Type
					id = fmt.Sprint("obj", p.Obj)
					if seen[id] == "" {
						for _, f := range ai.Leaves(po.Type, "") {
							queue = append(queue, cell{ai.VPtr{Obj: p.Obj, Path: f}, q.name + ">" + f})
						}
					}
				} else if r, is := v.(ai.VRef); is {
					id = fmt.Sprint("term", st.Find(r.T).ID)
				}
				if id != "" {
					if l.same = seen[id]; l.same == "" {
						seen[id] = q.name
					}
				}
			}
			s.leaves = append(s.leaves, l)
		}
		var ks []string
		for _, l := range s.leaves {
			ks = append(ks, l.path+"="+l.kind+"/"+l.same)
		}
		s.key = strings.Join(ks, " ")
		out = append(out, s)
	}
	o := st.Heap[b.Obj]
	var q []cell
	for _, f := range ai.Leaves(o.Type, "") {
		q = append(q, cell{ai.VPtr{Obj: b.Obj, Path: f}, f})
	}
	cells(st, q, &shape{ints: map[string][2]int64{}, from: from}, map[string]string{})
	return out
}

func cpSeen(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *shape) clone() *shape {
	n := &shape{leaves: append([]leaf(nil), s.leaves...), ints: map[string][2]int64{}, from: s.from}
	for k, v := range s.ints {
		n.ints[k] = v
	}
	return n
}

func mapID(in *ai.Interp, st *State, v Val, typ types.Type) (ai.ObjID, bool) {
	switch x := st.Canon(v).(type) {
	case ai.VPtr:
		return x.Obj, true
	case ai.VRef:
		return st.Target(x.T, typ), true
	}
	return 0, false
}

// bounds finds the least and the greatest value of l.
func bounds(st *State, l num.Lin) [2]int64 {
	if n := st.Num.Norm(l); n.IsConst() {
		return [2]int64{n.K, n.K}
	}
	b := [2]int64{-unbounded, unbounded}
	const max = 1 << 20
	if st.Num.Le(k(-max), l) {
		lo, hi := int64(-max), int64(max)
		for lo < hi {
			m := lo + (hi-lo+1)/2
			if st.Num.Le(k(m), l) {
				lo = m
			} else {
				hi = m - 1
			}
		}
		b[0] = lo
	}
	if st.Num.Le(l, k(max)) {
		lo, hi := int64(-max), int64(max)
		for lo < hi {
			m := lo + (hi-lo)/2
			if st.Num.Le(l, k(m)) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		b[1] = hi
	}
	return b
}

// add adds the abstract states of builder b.
func (c *builderClient) add(st *State, b ai.VPtr, from string) {
	for _, s := range c.shapesOf(st, b, from) {
		e := c.entries[s.key]
		if e == nil {
			if len(c.order) > 200 {
				panic(ai.TooHard{Why: "too many abstract states of a builder"})
			}
			s.dirty, s.n = true, len(c.order)
			c.entries[s.key] = s
			c.order = append(c.order, s)
			continue
		}
		for p, x := range s.ints {
			y := e.ints[p]
			if x[0] < y[0] || x[1] > y[1] {
				e.dirty = true
				if x[0] < y[0] {
					y[0] = x[0]
				}
				if x[1] > y[1] {
					y[1] = x[1]
				}
				e.n++
				if e.n > 300 {
					y = [2]int64{-unbounded, unbounded}
				}
				e.ints[p] = y
			}
		}
	}
}

// rebuild makes a builder in the given abstract state.
func (c *builderClient) rebuild(s *shape) (*State, ai.VPtr) {
	st := ai.NewState()
	root := st.NewCells(c.builderT, "builder", noPos)
	objs := map[string]ai.ObjID{"": root}
	vals := map[string]Val{}
	for _, l := range s.leaves {
		i := strings.LastIndex(l.path, ">")
		in, cell := "", l.path
		if i >= 0 {
			in, cell = l.path[:i], l.path[i+1:]
		}
		id, is := objs[in]
		if !is {
			panic(ai.TooHard{Why: "rebuilding a builder"})
		}
		t := ai.Named("cell "+l.path, l.typ)
		var v Val
		switch l.kind {
		case "zero":
			v = vint(k(0))
		case "nonzero":
			x := st.IntOf(t, l.typ)
			b := s.ints[l.path]
			if b[0] > -unbounded {
				st.Num.AddLe(k(b[0]), x)
			}
			if b[1] < unbounded {
				st.Num.AddLe(x, k(b[1]))
			}
			v = vint(x)
			for _, x := range st.Assume(st.EqForm(v, vint(k(0))), false) {
				st = x // the bounds exclude zero, or nearly so
				break
			}
		case "true", "false":
			v = vbool(l.kind == "true")
		case "nil":
			v = ai.VNil{}
		case "map":
			v = ai.VPtr{Obj: st.NewMap(l.typ, t, "headers of the builder", noPos)}
		case "obj":
			o := st.NewCells(l.obj, "part of the builder", noPos)
			objs[l.path] = o
			v = ai.VPtr{Obj: o}
		case "value":
			st.Facts[ai.IsNilAtom(t)] = false
			v = ref(t)
		default:
			v = st.ValOf(t, l.typ)
		}
		if l.same != "" {
			v = vals[l.same]
			if l.kind == "obj" {
				objs[l.path] = objs[l.same]
			}
		}
		vals[l.path] = v
		st.WriteCells(id, cell, v)
	}
	return st, ai.VPtr{Obj: root}
}

// ---- observation

// accessor calls a method without arguments that is expected to change nothing.
func (c *builderClient) accessor(st *State, recv Val, t types.Type, name string) (*State, Val) {
	m := c.p.Methods(types.NewPointer(t))[name]
	if m == nil {
		panic(Anchor{"method " + name + " of " + short(t)})
	}
	outs := c.in.CallFn(st, m, []Val{recv}, nil, noPos, -1)
	if len(outs) != 1 || outs[0].Panic {
		if ai.Debug {
			fmt.Println("outcomes", len(outs), st.Trace)
			for _, o := range outs {
				fmt.Println(o.Panic, o.St.ShowVal(o.Val))
			}
		}
		panic(ai.TooHard{Why: "accessor " + name + " of " + short(t)})
	}
	return outs[0].St, outs[0].Val
}

// view observes a builder or response; the state it returns is one in which
// the header map exists.
func (c *builderClient) view(st *State, recv Val, t types.Type) (*State, bview) {
	var v bview
	n := c.stores
	st, v.status = c.accessor(st, recv, t, "Status")
	st, v.body = c.accessor(st, recv, t, "Body")
	st, v.err = c.accessor(st, recv, t, "Err")
	if t == c.builderT {
		st, v.gen = c.accessor(st, recv, t, "PageGenerator")
	}
	c.ob(st, "R11", "accessors change nothing", n == c.stores, "Status, Body, Err or PageGenerator changes something")
	x, h := c.accessor(st.Clone(), recv, t, "Headers")
	v.hdrs = h
	return x, v
}

// materialise decides which of the given headers the maps held by b have.
func (c *builderClient) materialise(st *State, b ai.VPtr, keys []Val) []*State {
	work := []*State{st}
	for id := range st.Heap {
		if o := st.Heap[id]; o.Kind != "map" || !types.Identical(o.Type.Underlying(), c.headerT.Underlying()) {
			continue
		}
		for _, key := range keys {
			var nx []*State
			for _, s := range work {
				for _, g := range c.in.MapGet(s, ai.VPtr{Obj: id}, c.headerT, key) {
					nx = append(nx, g.St)
				}
			}
			work = nx
		}
	}
	return work
}

// header looks up a header in a state in which this does not fork.
func (c *builderClient) header(st *State, hdrs, key Val) (*State, hdr, ai.ObjID) {
	gs := c.in.MapGet(st, hdrs, c.headerT, key)
	if len(gs) != 1 {
		panic(ai.TooHard{Why: "a header map that depends on more than the operation"})
	}
	g := gs[0]
	return g.St, hdr{g.Present, g.V}, g.Map
}

// snapshot copies a list of header values so that later changes do not matter.
func (c *builderClient) snapshot(st *State, v Val) Val {
	s, is := st.Canon(v).(ai.VSlice)
	if !is || s.Arr == 0 {
		return ai.VNil{}
	}
	id := st.NewArray(types.Typ[types.String], s.Len, nil, "snapshot", noPos)
	st.CopyRange(id, k(0), s.Arr, s.Off, s.Len)
	return ai.VSlice{Arr: id, Len: s.Len, Cap: s.Len}
}

// list tells whether v is the list prefix..., last.
func (c *builderClient) isList(st *State, v Val, prefix Val, last *ai.Term) bool {
	s, is := st.Canon(v).(ai.VSlice)
	if !is || s.Arr == 0 {
		return false
	}
	n := k(0)
	if p, is := st.Canon(prefix).(ai.VSlice); is && p.Arr != 0 {
		n = p.Len
	}
	if !st.Num.Eq(s.Len, n.AddK(1)) {
		return false
	}
	if !st.Same(st.Elem(s.Arr, s.Off.Add(n), types.Typ[types.String]), ref(last)) {
		return false
	}
	head := s
	head.Len = n
	return sameSeq(st, head, prefix)
}

// ---- operations

// effect says what an operation does; zero fields mean: unchanged.
type effect struct {
	status, body, err, gen Val
	hdrs                   func(st *State, i int, key Val) (present bool, check func(st *State, v Val) bool) // nil: unchanged
	touched                []Val
	refuse                 []*ai.Form // it panics exactly if one of these holds
	other                  bool       // not a setter
	free                   bool       // the condition of refusal is checked elsewhere
}

// Builder runs the analysis of response.Builder.
func (p *Program) Builder(r *Report) *ai.Interp {
	c := p.newBuilderClient(r)
	ms := p.Methods(types.NewPointer(c.builderT))
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, want := range strings.Fields("Status Headers Body Err PageGenerator WithPageGenerator WithStatus WithHeaders WithHeader WithoutHeader WithContentType WithContentLanguage WithContentEncoding WithETag WithDigest WithBody WithJSON WithPrettyJSON WithProto WithProtoText WithError RedirectPage ErrorPage Copy Build") {
		if ms[want] == nil {
			panic(Anchor{"method " + want + " of response.Builder"})
		}
	}
	// the builders to start with: NewBuilder() and the zero value
	c.op = "NewBuilder"
	for _, o := range c.in.CallFn(ai.NewState(), p.Func("response", "NewBuilder"), nil, nil, noPos, -1) {
		b, is := o.Val.(ai.VPtr)
		if o.Panic || !is {
			panic(ai.TooHard{Why: "NewBuilder"})
		}
		c.add(o.St, b, "NewBuilder")
	}
	zero := ai.NewState()
	c.add(zero, ai.VPtr{Obj: zero.NewCells(c.builderT, "builder", noPos)}, "zero value")
	for {
		var s *shape
		for _, e := range c.order {
			if e.dirty {
				s = e
				break
			}
		}
		if s == nil {
			break
		}
		s.dirty = false
		if ai.Debug {
			fmt.Println("builder state", s.key, s.ints)
		}
		for _, n := range names {
			c.op = n
			c.run(s, ms[n])
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d abstract states of a builder, %d methods", len(c.order), len(names)))
	c.response()
	c.generator()
	return c.in
}

// begin makes the state in which an operation starts.
func (c *builderClient) begin(s *shape) (*State, ai.VPtr) {
	st, b := c.rebuild(s)
	st.Facts[ai.IsNilAtom(c.defGen)] = false
	for _, g := range []string{"made", "envPanic", "gen.calls", "copy.n"} {
		st.Ghost[g] = vint(k(0))
	}
	for _, g := range []string{"pre.gen", "pre.body", "arg.0", "gen.arg", "copy.err"} {
		st.Ghost[g] = ai.VNil{}
	}
	st.Skolem = []Val{c.other}
	return st, b
}

// args makes arbitrary arguments.
func (c *builderClient) args(st *State, m *ssa.Function) []Val {
	var out []Val
	ps := m.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		n := ai.Named(fmt.Sprintf("argument %d of %s", i, m.Name()), t)
		v := st.ValOf(n, t)
		switch x := v.(type) {
		case ai.VSlice:
			st.Num.AddLe(x.Cap.Mul(64), num.Big)
		case ai.VRef:
			if isString(t) {
				st.Num.AddLe(st.LenOf(n).Mul(64), num.Big)
			}
		}
		out = append(out, v)
	}
	return out
}

func (c *builderClient) run(s *shape, m *ssa.Function) {
	if m.Signature.Variadic() {
		panic(ai.TooHard{Why: "variadic method " + m.Name()})
	}
	st, b := c.begin(s)
	args := c.args(st, m)
	keys := c.keys(st, args)
	for _, key := range keys {
		ss := st.Assume(st.EqForm(c.other, key), false)
		if len(ss) != 1 {
			panic(ai.TooHard{Why: "header names"})
		}
		st = ss[0]
	}
	keys = append(keys, c.other)
	// what the arguments may be
	starts := []*State{st}
	for _, a := range args {
		var nx []*State
		for _, x := range starts {
			r, is := a.(ai.VRef)
			if is && !isString(r.T.T) && r.T.T != nil && nillable(r.T.T) {
				y := x.Clone()
				nx = append(nx, x.Assume(ai.Atom(ai.IsNilAtom(r.T)), true)...)
				nx = append(nx, y.Assume(ai.Atom(ai.IsNilAtom(r.T)), false)...)
			} else {
				nx = append(nx, x)
			}
		}
		starts = nx
	}
	var all []*State
	for _, x := range starts {
		for _, a := range args {
			if r, is := a.(ai.VRef); is && types.Identical(r.T.T, c.headerT) && x.IsNil(a) < 0 {
				x.Target(r.T, c.headerT)
			}
		}
		all = append(all, c.materialise(x, b, keys)...)
	}
	for _, x := range all {
		x.Trace = nil
		c.runFrom(x, b, m, args, keys)
	}
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Map, *types.Pointer:
		return true
	}
	return false
}

// runFrom runs an operation from one state.
func (c *builderClient) runFrom(st *State, b ai.VPtr, m *ssa.Function, args, keys []Val) {
	x, pre := c.view(st.Clone(), b, c.builderT)
	var hs []hdr
	var preMap ai.ObjID
	for _, key := range keys {
		var h hdr
		x, h, preMap = c.header(x, pre.hdrs, key)
		hs = append(hs, h)
	}
	st.Ghost["pre.status"], st.Ghost["pre.body"], st.Ghost["pre.err"], st.Ghost["pre.gen"] = pre.status, pre.body, pre.err, pre.gen
	for i, h := range hs {
		st.Ghost[fmt.Sprintf("pre.p.%d", i)] = vbool(h.present)
		st.Ghost[fmt.Sprintf("pre.v.%d", i)] = ai.VNil{}
		if h.present {
			st.Ghost[fmt.Sprintf("pre.v.%d", i)] = c.snapshot(st, h.val)
		}
	}
	if len(args) > 0 {
		st.Ghost["arg.0"] = args[0]
	}
	if len(args) == 2 {
		st.Ghost["gen.arg"] = args[1]
		if c.op == "RedirectPage" {
			st.Ghost["gen.arg"] = ref(trimmed(args[1]))
		}
	}
	_ = preMap
	if ai.Debug {
		fmt.Println("  op", c.op)
	}
	for _, o := range c.in.CallFn(st, m, append([]Val{b}, args...), nil, noPos, -1) {
		c.after(o, b, args, keys)
	}
}

func trimmed(v Val) *ai.Term {
	t := ai.MkTerm("pure", "strings.TrimSpace", []*ai.Term{v.(ai.VRef).T})
	t.T = types.Typ[types.String]
	return t
}

// keys lists the headers that the operation under analysis may change.
func (c *builderClient) keys(st *State, args []Val) []Val {
	name := map[string]string{
		"WithContentType": "Content-Type", "WithContentLanguage": "Content-Language", "WithContentEncoding": "Content-Encoding",
		"WithETag": "Etag", "WithDigest": "Digest", "WithJSON": "Content-Type", "WithPrettyJSON": "Content-Type",
		"WithProto": "Content-Type", "WithProtoText": "Content-Type",
	}[c.op]
	if name != "" {
		return []Val{ref(ai.StrConst(name))}
	}
	switch c.op {
	case "WithHeader", "WithoutHeader":
		return []Val{ref(ai.CanonKey(st, args[0].(ai.VRef).T))}
	case "Build":
		return []Val{ref(ai.StrConst("Content-Type")), ref(ai.StrConst("Content-Length"))}
	}
	return nil
}

// preHdr returns the header before the operation.
func preHdr(st *State, i int) hdr {
	return hdr{isTrue(st, fmt.Sprintf("pre.p.%d", i)), st.Ghost[fmt.Sprintf("pre.v.%d", i)]}
}

// unchanged checks that header i is as it was.
func (c *builderClient) unchanged(st *State, i int, h hdr) bool {
	p := preHdr(st, i)
	return p.present == h.present && (!h.present || sameSeq(st, h.val, p.val))
}

// after checks an operation.
func (c *builderClient) after(o Outcome, b ai.VPtr, args, keys []Val) {
	st := o.St
	switch c.op {
	case "Copy":
		c.afterCopy(o, b, keys)
		return
	case "Build":
		c.afterBuild(o, b, keys)
		return
	}
	e := c.effect(st, args)
	x, post := c.view(st.Clone(), b, c.builderT)
	pre := bview{status: st.Ghost["pre.status"], body: st.Ghost["pre.body"], err: st.Ghost["pre.err"], gen: st.Ghost["pre.gen"]}
	c.statusInv(x, post)
	setter := strings.HasPrefix(c.op, "With") || strings.HasSuffix(c.op, "Page")
	prop := "R11"
	if strings.HasSuffix(c.op, "Page") {
		prop = "R10"
	}
	if o.Panic {
		refused := st.Decide(orAll(e.refuse)) > 0
		c.ob(st, prop, "only what is documented is refused", isOne(st, "envPanic") || refused, "%s panics with %s", c.op, st.ShowVal(o.Val))
		c.ob(x, "R05", "a refused status changes nothing", x.Same(post.status, pre.status), "the status becomes %s", x.ShowVal(post.status))
		c.same(x, prop, "a refused call changes nothing", pre, post)
		for i, key := range keys {
			y, h, _ := c.header(x, post.hdrs, key)
			c.ob(y, prop, "a refused call changes nothing", c.unchanged(y, i, h), "header %s changes to %s", y.ShowVal(key), y.ShowVal(h.val))
			x = y
		}
		c.add(st, b, c.op)
		return
	}
	refused := st.Decide(orAll(e.refuse)) >= 0
	rprop := prop
	if c.op == "WithStatus" || strings.HasSuffix(c.op, "Page") {
		rprop = "R05"
	}
	if len(e.refuse) > 0 {
		c.ob(st, rprop, "what must be refused is refused", !refused, "%s accepts %s", c.op, showVals(st, args))
	}
	if setter {
		c.ob(st, prop, "the builder itself is returned", st.Same(o.Val, b), "%s returns %s", c.op, st.ShowVal(o.Val))
	}
	want := pre
	if e.status != nil {
		want.status = e.status
		c.ob(x, "R05", "the status set last counts", x.Same(post.status, e.status), "the status becomes %s instead of %s", x.ShowVal(post.status), x.ShowVal(e.status))
	}
	if e.body != nil {
		want.body = e.body
	}
	if e.err != nil {
		want.err = e.err
	}
	if e.gen != nil {
		want.gen = e.gen
	}
	c.same(x, prop, "exactly what is named is set", want, post)
	hprop := prop
	if c.op == "WithHeaders" {
		hprop = "R07"
	}
	for i, key := range keys {
		y, h, id := c.header(x, post.hdrs, key)
		x = y
		if e.hdrs == nil {
			c.ob(x, prop, "exactly what is named is set", c.unchanged(x, i, h), "header %s changes to %s", x.ShowVal(key), x.ShowVal(h.val))
			continue
		}
		present, check := e.hdrs(x, i, key)
		if check == nil && !present && !(i < len(e.touched)) {
			c.ob(x, hprop, "other headers stay", c.unchanged(x, i, h), "header %s changes to %s", x.ShowVal(key), x.ShowVal(h.val))
			continue
		}
		good := h.present == present && (!present || check == nil || check(x, h.val))
		rule := "the named header is set"
		if c.op == "WithHeaders" {
			rule = "the entries are those of the given map"
		}
		c.ob(x, hprop, rule, good, "header %s becomes %s (%v)", x.ShowVal(key), x.ShowVal(h.val), h.present)
		if c.op == "WithHeaders" && h.present {
			c.isolated(x, h.val, "the given map")
		}
		if c.op == "WithHeaders" && x.IsNil(args[0]) < 0 {
			given, _ := mapID(c.in, x, args[0], c.headerT)
			c.ob(x, "R07", "the header map is not shared", id != given, "the builder keeps the given map")
		}
	}
	if strings.HasSuffix(c.op, "Page") {
		c.ob(st, "R10", "the page generator is asked once for the page", isOne(st, "gen.calls"), "the page generator is called %s times", st.ShowVal(st.Ghost["gen.calls"]))
	}
	c.add(st, b, c.op)
}

// isolated checks that a list of header values is memory of its own.
func (c *builderClient) isolated(st *State, v Val, of string) {
	s, is := st.Canon(v).(ai.VSlice)
	if !is || s.Arr == 0 || st.Num.Le(s.Cap, k(0)) {
		return
	}
	o := st.Heap[s.Arr]
	c.ob(st, "R07", "lists of values are not shared", o.Fresh, "the list of values is that of %s", of)
	c.ob(st, "R07", "lists of values do not share spare room", st.Num.Eq(s.Len, s.Cap) || st.Num.Eq(s.Off, k(0)), "a list of values may grow into another one")
}

func orAll(fs []*ai.Form) *ai.Form {
	f := ai.B(false)
	for _, g := range fs {
		f = ai.Or(f, g)
	}
	return f
}

// statusInv checks that a builder's status is 0 or from 200 to 999.
func (c *builderClient) statusInv(st *State, v bview) {
	l := lin(v.status)
	c.ob(st, "R05", "the status is unset or from 200 to 999", st.Num.Eq(l, k(0)) || st.Num.Le(k(200), l) && st.Num.Le(l, k(999)), "the builder's status is %s", st.Num.Norm(l))
}

// same compares everything but the headers.
func (c *builderClient) same(st *State, prop, rule string, want, got bview) {
	eq := func(what string, a, b Val) {
		if a == nil || b == nil {
			return
		}
		c.ob(st, prop, rule, st.Same(a, b) || st.IsNil(a) > 0 && st.IsNil(b) > 0, "the %s becomes %s instead of %s", what, st.ShowVal(b), st.ShowVal(a))
	}
	eq("status", want.status, got.status)
	eq("body", want.body, got.body)
	eq("error", want.err, got.err)
	eq("page generator", want.gen, got.gen)
}

// effect is the meaning of the setters.
func (c *builderClient) effect(st *State, args []Val) effect {
	str := func(i int) *ai.Term { return st.Find(args[i].(ai.VRef).T) }
	one := func(t *ai.Term) func(*State, int, Val) (bool, func(*State, Val) bool) {
		return func(_ *State, i int, key Val) (bool, func(*State, Val) bool) {
			if i > 0 {
				return false, nil
			}
			return true, func(st *State, v Val) bool { return c.isList(st, v, ai.VNil{}, t) }
		}
	}
	added := func(t *ai.Term) func(*State, int, Val) (bool, func(*State, Val) bool) {
		return func(_ *State, i int, key Val) (bool, func(*State, Val) bool) {
			if i > 0 {
				return false, nil
			}
			return true, func(st *State, v Val) bool { return c.isList(st, v, st.Ghost["pre.v.0"], t) }
		}
	}
	first := []Val{nil}
	nilArg := func(i int) *ai.Form { return st.EqForm(args[i], ai.VNil{}) }
	empty := func(t *ai.Term) *ai.Form { return st.EqForm(ref(t), ref(ai.StrConst(""))) }
	outside := func(lo, hi int64) []*ai.Form {
		l := lin(args[0])
		return []*ai.Form{ai.Lt(l, k(lo)), ai.Lt(k(hi), l)}
	}
	payload := func(ctor, ct string) effect {
		var ts []*ai.Term
		for _, a := range args {
			ts = append(ts, c.termOf(st, a))
		}
		return effect{body: ref(ctorTerm(ctor, ts, c.bodyT)), hdrs: one(ai.StrConst(ct)), touched: first}
	}
	pure := func(name string, ts ...*ai.Term) *ai.Term {
		t := ai.MkTerm("pure", name, ts)
		if t.T == nil {
			t.T = types.Typ[types.String]
		}
		return t
	}
	fld := func(i int, t *ai.Term, typ types.Type) *ai.Term {
		f := ai.MkTerm("fld", fmt.Sprint(i), []*ai.Term{t})
		if f.T == nil {
			f.T = typ
		}
		return f
	}
	switch c.op {
	case "WithPageGenerator":
		return effect{gen: args[0], refuse: []*ai.Form{nilArg(0)}}
	case "WithStatus":
		return effect{status: args[0], refuse: outside(200, 999)}
	case "WithHeaders":
		return effect{hdrs: func(st *State, i int, key Val) (bool, func(*State, Val) bool) {
			if st.IsNil(args[0]) > 0 {
				return false, func(*State, Val) bool { return true }
			}
			_, h, _ := c.header(st.Clone(), args[0], key)
			return h.present, func(st *State, v Val) bool { return sameSeq(st, v, h.val) }
		}}
	case "WithHeader":
		e := effect{touched: first, refuse: []*ai.Form{empty(str(0))}}
		add := st.Decide(args[2].(ai.VBool).F)
		if add == 0 {
			return effect{touched: first, refuse: e.refuse, hdrs: func(*State, int, Val) (bool, func(*State, Val) bool) {
				return true, func(*State, Val) bool { return false }
			}}
		}
		if add > 0 {
			e.hdrs = added(str(1))
		} else {
			e.hdrs = one(str(1))
		}
		return e
	case "WithoutHeader":
		return effect{touched: first, refuse: []*ai.Form{empty(str(0))}, hdrs: func(st *State, i int, key Val) (bool, func(*State, Val) bool) {
			return false, nil
		}}
	case "WithContentType":
		p := pure("mime.ParseMediaType", str(0))
		mt, params, err := fld(0, p, types.Typ[types.String]), fld(1, p, nil), fld(2, p, c.errT)
		f := pure("mime.FormatMediaType", mt, params)
		return effect{touched: first, hdrs: one(f), refuse: []*ai.Form{ai.Not(ai.Atom(ai.IsNilAtom(err))), empty(f)}}
	case "WithContentLanguage", "WithContentEncoding":
		return effect{touched: first, hdrs: one(pure("strings.TrimSpace", str(0)))}
	case "WithETag":
		q := ai.StrConst(`"`)
		t := ai.Cat(st, ai.Cat(st, q, str(0)), q)
		switch st.Decide(args[1].(ai.VBool).F) {
		case -1:
			t = ai.Cat(st, ai.StrConst("W/"), t)
		case 0:
			t = ai.FreshTerm("tag", nil)
		}
		return effect{touched: first, hdrs: one(t)}
	case "WithDigest":
		s, _ := st.Canon(args[1]).(ai.VSlice)
		enc := ai.Base64(st, ai.Named("encoding/base64.StdEncoding", nil), st.StringOfBytes(s))
		return effect{touched: first, hdrs: added(ai.Cat(st, ai.Cat(st, str(0), ai.StrConst("=")), enc)), refuse: []*ai.Form{empty(str(0)), ai.Le0(s.Len)}}
	case "WithBody":
		return effect{body: args[0], refuse: []*ai.Form{nilArg(0)}}
	case "WithJSON":
		return payload("FromJSON", "application/json")
	case "WithPrettyJSON":
		return payload("FromPrettyJSON", "application/json")
	case "WithProto":
		return payload("FromProto", "application/vnd.google.protobuf")
	case "WithProtoText":
		return payload("FromProtoText", "text/plain; charset=utf-8")
	case "WithError":
		return effect{err: args[0]}
	case "RedirectPage", "ErrorPage":
		e := effect{status: args[0], body: ref(ai.Named("generated body", c.bodyT)), err: ai.VNil{}}
		if c.op == "ErrorPage" {
			e.err = args[1]
			e.refuse = append(outside(200, 999), nilArg(1))
		} else {
			e.refuse = append(outside(300, 399), empty(st.Find(trimmed(args[1]))))
		}
		gh := ref(ai.Named("generated headers", c.headerT))
		e.hdrs = func(st *State, i int, key Val) (bool, func(*State, Val) bool) {
			_, h, _ := c.header(st.Clone(), gh, key)
			return h.present, func(st *State, v Val) bool { return !h.present || sameSeq(st, v, h.val) }
		}
		return e
	}
	return effect{}
}

// afterBuild checks Build.
func (c *builderClient) afterBuild(o Outcome, b ai.VPtr, keys []Val) {
	st := o.St
	pre := bview{status: st.Ghost["pre.status"], body: st.Ghost["pre.body"], err: st.Ghost["pre.err"], gen: st.Ghost["pre.gen"]}
	x, post := c.view(st.Clone(), b, c.builderT)
	c.statusInv(x, post)
	noBody := st.IsNil(pre.body)
	if o.Panic {
		if isOne(st, "envPanic") {
			c.add(st, b, c.op)
			return
		}
		c.ob(st, "R06", "building panics exactly without a body", noBody > 0, "Build panics with %s", st.ShowVal(o.Val))
		c.same(x, "R06", "a refused Build changes nothing", pre, post)
		for i, key := range keys {
			y, h, _ := c.header(x, post.hdrs, key)
			x = y
			c.ob(x, "R06", "a refused Build changes nothing", c.unchanged(x, i, h), "header %s changes to %s", x.ShowVal(key), x.ShowVal(h.val))
		}
		c.add(st, b, c.op)
		return
	}
	if !c.ob(st, "R06", "building panics exactly without a body", noBody < 0, "Build returns although there is no body") {
		return
	}
	// the builder is empty
	empty := bview{status: vint(k(0)), body: ai.VNil{}, err: ai.VNil{}, gen: pre.gen}
	c.same(x, "R06", "the builder is empty afterwards", empty, post)
	c.ob(x, "R05", "no status is left for the next response", x.Num.Eq(lin(post.status), k(0)), "after Build the builder's status is %s", x.ShowVal(post.status))
	left, _ := mapID(c.in, x, post.hdrs, c.headerT)
	for _, key := range keys {
		y, h, id := c.header(x, post.hdrs, key)
		x, left = y, id
		c.ob(x, "R06", "the builder is empty afterwards", !h.present, "header %s is still there", x.ShowVal(key))
	}
	// the response
	if !c.ob(st, "R06", "Build returns a response", st.IsNil(o.Val) < 0, "Build returns %s", st.ShowVal(o.Val)) {
		return
	}
	y, resp := c.view(x, o.Val, c.respT)
	want := pre
	l := lin(pre.status)
	s := lin(resp.status)
	if y.Num.Eq(l, k(0)) {
		want.status = vint(k(200))
	}
	c.ob(y, "R05", "a response has a status from 200 to 999", y.Num.Le(k(200), s) && y.Num.Le(s, k(999)), "the status of the response is %s", y.ShowVal(resp.status))
	c.ob(y, "R05", "the status is the one set last, or 200", y.Same(resp.status, want.status), "the status of the response is %s, that of the builder was %s", y.ShowVal(resp.status), y.ShowVal(pre.status))
	want.gen, resp.gen = nil, nil
	c.same(y, "R06", "the response has what the builder had", want, resp)
	rt := ai.MkTerm("remaining", "", []*ai.Term{st.Find(st.Canon(pre.body).(ai.VRef).T)})
	rem := y.IntOf(rt, types.Typ[types.Int64])
	for i, key := range keys {
		z, h, id := c.header(y, resp.hdrs, key)
		y = z
		c.ob(y, "R06", "the header map is not shared", id == 0 || id != left, "builder and response share a header map")
		p := preHdr(y, i)
		if p.present || i == 2 {
			c.ob(y, "R06", "headers that were present stay", c.unchanged(y, i, h), "header %s changes to %s", y.ShowVal(key), y.ShowVal(h.val))
			continue
		}
		if i == 0 {
			c.ob(y, "R06", "a missing Content-Type is filled in", h.present && c.isList(y, h.val, ai.VNil{}, ai.StrConst("application/octet-stream")), "Content-Type is %s", y.ShowVal(h.val))
			continue
		}
		known := y.Num.Le(k(0), rem)
		unknown := y.Num.Lt(rem, k(0))
		good := known && h.present && c.isList(y, h.val, ai.VNil{}, ai.Itoa(y, rem)) || unknown && !h.present
		c.ob(y, "R06", "a missing Content-Length is filled in if it is known", good, "Content-Length is %s (%v), bytes remaining %s", y.ShowVal(h.val), h.present, y.Num.Norm(rem))
	}
	c.add(st, b, c.op)
}

// afterCopy checks Copy.
func (c *builderClient) afterCopy(o Outcome, b ai.VPtr, keys []Val) {
	st := o.St
	pre := bview{status: st.Ghost["pre.status"], body: st.Ghost["pre.body"], err: st.Ghost["pre.err"], gen: st.Ghost["pre.gen"]}
	x, post := c.view(st.Clone(), b, c.builderT)
	c.statusInv(x, post)
	c.same(x, "R07", "copying changes nothing", pre, post)
	var orig []hdr
	var origMap ai.ObjID
	for i, key := range keys {
		y, h, id := c.header(x, post.hdrs, key)
		x, origMap = y, id
		c.ob(x, "R07", "copying changes nothing", c.unchanged(x, i, h), "header %s changes to %s", x.ShowVal(key), x.ShowVal(h.val))
		orig = append(orig, h)
	}
	c.add(st, b, c.op)
	if o.Panic {
		c.ob(st, "R07", "copying does not panic", isOne(st, "envPanic"), "Copy panics with %s", st.ShowVal(o.Val))
		return
	}
	b2, err := tup(o.Val, 0), tup(o.Val, 1)
	if !isNilV(st, "copy.err") {
		c.ob(st, "R07", "a failure to copy the body is returned", st.Same(err, st.Ghost["copy.err"]) && st.IsNil(b2) > 0, "Copy returns %s, %s", st.ShowVal(b2), st.ShowVal(err))
		return
	}
	p2, is := st.Canon(b2).(ai.VPtr)
	if !c.ob(st, "R07", "a copy or an error", st.IsNil(err) > 0 && is, "Copy returns %s, %s", st.ShowVal(b2), st.ShowVal(err)) {
		return
	}
	c.ob(st, "R07", "a copy is another builder", p2.Obj != b.Obj, "Copy returns the builder itself")
	y, cp := c.view(x, p2, c.builderT)
	want := pre
	if st.IsNil(pre.body) < 0 {
		t := ai.MkTerm("copyof", "", []*ai.Term{st.Find(st.Canon(pre.body).(ai.VRef).T)})
		t.T = c.bodyT
		want.body = ref(t)
		c.ob(st, "R07", "the body is copied once", isOne(st, "copy.n"), "the body is copied %s times", st.ShowVal(st.Ghost["copy.n"]))
	}
	c.same(y, "R07", "a copy equals the original", want, cp)
	c.ob(y, "R05", "the status set last counts", y.Same(cp.status, want.status), "the status of the copy is %s", y.ShowVal(cp.status))
	for i, key := range keys {
		z, h, id := c.header(y, cp.hdrs, key)
		y = z
		c.ob(y, "R07", "a copy equals the original", c.unchanged(y, i, h), "header %s is %s", y.ShowVal(key), y.ShowVal(h.val))
		c.ob(y, "R07", "the header map is not shared", id == 0 || id != origMap, "copy and original share a header map")
		if h.present {
			a, is1 := y.Canon(h.val).(ai.VSlice)
			d, is2 := y.Canon(orig[i].val).(ai.VSlice)
			shared := is1 && is2 && a.Arr != 0 && a.Arr == d.Arr && !y.Num.Le(a.Cap, k(0))
			c.ob(y, "R07", "lists of values are not shared", !shared, "copy and original share a list of values")
			c.isolated(y, h.val, "the original")
		}
	}
	c.add(st, p2, c.op)
}

// response checks Copy of a response.
func (c *builderClient) response() {
	ptr := types.NewPointer(c.respT)
	m := c.p.Methods(ptr)["Copy"]
	if m == nil {
		panic(Anchor{"method Copy of response.Response"})
	}
	c.op = "Copy of a Response"
	st, _ := c.begin(&shape{})
	resp := ai.Named("resp", ptr)
	st.Facts[ai.IsNilAtom(resp)] = false
	st.Target(resp, ptr)
	x, pre := c.view(st, ref(resp), c.respT)
	if x.IsNil(pre.body) == 0 {
		x.Facts[ai.IsNilAtom(x.Find(pre.body.(ai.VRef).T))] = false
	}
	x.Ghost["pre.body"] = pre.body
	for _, g := range c.in.MapGet(x, pre.hdrs, c.headerT, c.other) {
		before := hdr{g.Present, nil}
		if g.Present {
			before.val = c.snapshot(g.St, g.V)
		}
		for _, o := range c.in.CallFn(g.St, m, []Val{ref(resp)}, nil, noPos, -1) {
			st := o.St
			if o.Panic {
				c.ob(st, "R07", "copying does not panic", isOne(st, "envPanic"), "Copy panics with %s", st.ShowVal(o.Val))
				continue
			}
			r2, err := tup(o.Val, 0), tup(o.Val, 1)
			if !isNilV(st, "copy.err") {
				c.ob(st, "R07", "a failure to copy the body is returned", st.Same(err, st.Ghost["copy.err"]) && st.IsNil(r2) > 0, "Copy returns %s, %s", st.ShowVal(r2), st.ShowVal(err))
				continue
			}
			if !c.ob(st, "R07", "a copy or an error", st.IsNil(err) > 0 && st.IsNil(r2) < 0, "Copy returns %s, %s", st.ShowVal(r2), st.ShowVal(err)) {
				continue
			}
			y, cp := c.view(st, r2, c.respT)
			t := ai.MkTerm("copyof", "", []*ai.Term{st.Find(st.Canon(pre.body).(ai.VRef).T)})
			t.T = c.bodyT
			want := pre
			want.body = ref(t)
			c.ob(st, "R07", "the body is copied once", isOne(st, "copy.n"), "the body is copied %s times", st.ShowVal(st.Ghost["copy.n"]))
			c.same(y, "R07", "a copy equals the original", want, cp)
			for _, h := range c.in.MapGet(y, cp.hdrs, c.headerT, c.other) {
				c.ob(h.St, "R07", "a copy equals the original", h.Present == before.present && (!h.Present || sameSeq(h.St, h.V, before.val)), "header %s is %s", h.St.ShowVal(c.other), h.St.ShowVal(h.V))
			}
			z, post := c.view(y, ref(resp), c.respT)
			c.same(z, "R07", "copying changes nothing", pre, post)
		}
	}
}
