package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// The client of the response writer: an arbitrary underlying writer w is
// wrapped, and then any sequence of exported methods is called with any
// arguments.  The abstract states of wrapper and ghost state are closed under
// all operations; every operation is checked from every state.
//
// Ghost state: sent (1 once a final status was sent to w), status (that
// status), bytes (body bytes w accepted), err (a body write failed or a second
// header call was made); per operation: calls of w made by it.
type writerClient struct {
	p   *Program
	r   *Report
	in  *ai.Interp
	w   *ai.Term // the underlying writer
	req *ai.Term
	op  string // operation under analysis
	ops int

	writerT, respWriterT                                          types.Type
	flusherT, hijackerT, notifierT, pusherT, readerFromT, readerT types.Type
	bodiless                                                      *ai.Form
	srcs                                                          map[*ai.Term]bool
}

func (p *Program) newWriterClient(r *Report, in *ai.Interp) *writerClient {
	c := &writerClient{p: p, r: r, in: in, srcs: map[*ai.Term]bool{}}
	c.writerT = p.Type("response", "Writer")
	c.respWriterT = p.Std("net/http", "ResponseWriter")
	c.flusherT = p.Std("net/http", "Flusher")
	c.hijackerT = p.Std("net/http", "Hijacker")
	c.notifierT = p.Std("net/http", "CloseNotifier")
	c.pusherT = p.Std("net/http", "Pusher")
	c.readerFromT = p.Std("io", "ReaderFrom")
	c.readerT = p.Std("io", "Reader")
	return c
}

// newEnv makes the state in which NewWriter is called.
func (c *writerClient) newEnv() *State {
	st := ai.NewState()
	c.w = ai.Named("w", c.respWriterT)
	reqT := types.NewPointer(c.p.Std("net/http", "Request"))
	c.req = ai.Named("req", reqT)
	st.Facts[ai.IsNilAtom(c.w)] = false
	st.Facts[ai.IsNilAtom(c.req)] = false
	id := st.Target(c.req, reqT)
	path := ""
	u := reqT.Elem().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Method" {
			path = fmt.Sprintf(".%d", i)
		}
	}
	c.bodiless = st.EqForm(st.Cell(st.Heap[id], path), ref(ai.StrConst("HEAD")))
	c.resetGhosts(st)
	return st
}

func (c *writerClient) resetGhosts(st *State) {
	st.Ghost["sent"] = vint(k(0))
	st.Ghost["status"] = vint(k(0))
	st.Ghost["bytes"] = vint(k(0))
	st.Ghost["err"] = vbool(false)
	c.resetOp(st)
}

// resetOp clears the ghosts which describe one operation.
func (c *writerClient) resetOp(st *State) {
	for _, g := range []string{"n.WriteHeader", "n.Write", "n.ReadFrom", "n.Flush", "n.Header", "n.Push", "n.Hijack", "n.CloseNotify"} {
		st.Ghost[g] = vint(k(0))
	}
	st.Ghost["arg.0"], st.Ghost["arg.1"], st.Ghost["arg.content"] = ai.VNil{}, ai.VNil{}, ai.VNil{}
	st.Ghost["op.status"] = vint(k(0))
	st.Ghost["op.pos"] = vint(k(0)) // bytes of the argument handed to w
	st.Ghost["op.ret"] = ai.VNil{}  // last result of w
	st.Ghost["op.last"] = vint(k(0))
	st.Ghost["op.err"] = ai.VNil{}
	st.Ghost["op.src"] = vint(k(0)) // state of the source: 1 end, 2 error
	st.Ghost["op.srcerr"] = ai.VNil{}
}

func bump(st *State, g string) { st.Ghost[g] = vint(st.Num.Norm(G(st, g).AddK(1))) }

func isOne(st *State, g string) bool  { return st.Num.Eq(G(st, g), k(1)) }
func isZero(st *State, g string) bool { return st.Num.Eq(G(st, g), k(0)) }

// invoke models the methods of the environment.
func (c *writerClient) invoke(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	if c.srcs[recv] {
		return c.srcCall(st, recv, m, args, pos)
	}
	if recv != st.Find(c.w) {
		return nil, false
	}
	return c.writerCall(st, m, args, pos)
}

func (c *writerClient) where(m string) string { return c.op + " calling " + m }

// writerCall is a call of a method of the underlying writer.
func (c *writerClient) writerCall(st *State, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	ob := func(prop, rule string, good bool, f string, a ...interface{}) {
		c.r.Ob(c.in, prop, rule, c.where(m.Name()), good, st, f, a...)
	}
	st.Note(pos, "underlying writer: "+m.Name())
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Header":
		bump(st, "n.Header")
		h := ai.Named("w.Header()", sig.Results().At(0).Type())
		st.Facts[ai.IsNilAtom(h)] = false
		return []Outcome{ok(st, ref(h))}, true
	case "WriteHeader":
		s := lin(args[0])
		bump(st, "n.WriteHeader")
		ob("R01", "status sent at most once", isZero(st, "sent"), "a status is sent to the underlying writer again")
		st.Ghost["sent"] = vint(k(1))
		st.Ghost["status"] = vint(s)
		st.Ghost["op.status"] = vint(s)
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "Write":
		bump(st, "n.Write")
		ob("R01", "status precedes body and flush", isOne(st, "sent"), "body bytes are written before a status was sent")
		c.checkBodiless(st, m.Name())
		s, is := args[0].(ai.VSlice)
		if !is {
			if _, n := args[0].(ai.VNil); !n {
				panic(ai.TooHard{Why: "argument of Write"})
			}
		}
		c.checkData(st, s, m.Name())
		var outs []Outcome
		for _, e := range errCases(st, "writeErr") {
			n := e.st.FreshInt("written", types.Typ[types.Int])
			e.st.Num.AddLe(k(0), n)
			e.st.Num.AddLe(n, s.Len)
			if e.nil {
				e.st.Num.AddEq(n, s.Len)
			} else {
				e.st.Ghost["err"] = vbool(true)
			}
			c.accepted(e.st, n)
			e.st.Ghost["op.ret"] = vint(n)
			e.st.Ghost["op.err"] = e.err
			outs = append(outs, ok(e.st, ai.Tup(vint(n), e.err)))
		}
		return outs, true
	case "ReadFrom":
		bump(st, "n.ReadFrom")
		ob("R01", "status precedes body and flush", isOne(st, "sent"), "a stream is handed over before a status was sent")
		c.checkBodiless(st, m.Name())
		src, is := args[0].(ai.VRef)
		ob("R03", "data is passed through unchanged", is && c.srcs[st.Find(src.T)] && isZero(st, "op.pos") && isZero(st, "op.src"), "ReadFrom hands over %s instead of the untouched source", st.ShowVal(args[0]))
		var outs []Outcome
		for _, e := range errCases(st, "readFromErr") {
			n := e.st.FreshInt("copied", types.Typ[types.Int64])
			e.st.Num.AddLe(k(0), n)
			if !e.nil {
				e.st.Ghost["err"] = vbool(true)
			}
			c.accepted(e.st, n)
			e.st.Ghost["op.ret"] = vint(n)
			e.st.Ghost["op.err"] = e.err
			e.st.Ghost["op.src"] = vint(k(1))
			outs = append(outs, ok(e.st, ai.Tup(vint(n), e.err)))
		}
		return outs, true
	case "Flush":
		bump(st, "n.Flush")
		ob("R01", "status precedes body and flush", isOne(st, "sent"), "Flush is called before a status was sent")
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "Push":
		bump(st, "n.Push")
		if len(args) == 2 {
			ob("R04", "push is forwarded unchanged", st.Same(args[0], st.Ghost["arg.0"]) && st.Same(args[1], st.Ghost["arg.1"]), "Push is forwarded with other arguments")
		}
		var outs []Outcome
		for _, e := range errCases(st, "pushErr") {
			e.st.Ghost["op.ret"] = e.err
			outs = append(outs, ok(e.st, e.err))
		}
		return outs, true
	case "Hijack", "CloseNotify":
		bump(st, "n."+m.Name())
		v := st.FreshResults(m.Name(), sig)
		st.Ghost["op.ret"] = v
		return []Outcome{ok(st, v)}, true
	}
	return nil, false
}

// accepted counts body bytes; their total stays below 2^62.
func (c *writerClient) accepted(st *State, n num.Lin) {
	b := G(st, "bytes").Add(n)
	st.Num.AddLe(b, num.Big)
	st.Ghost["bytes"] = vint(st.Num.Norm(b))
	st.Ghost["op.pos"] = vint(st.Num.Norm(G(st, "op.pos").Add(n)))
}

func (c *writerClient) checkBodiless(st *State, name string) {
	s := G(st, "status")
	bl := ai.Or(c.bodiless, ai.Or(ai.EqL(s, k(204)), ai.EqL(s, k(304))))
	c.r.Ob(c.in, "R03", "no body bytes on bodiless responses", c.where(name), st.Decide(bl) < 0, st,
		"body bytes may reach the underlying writer although the request is HEAD or the status is 204 or 304")
}

// checkData requires the bytes handed to w to be the next bytes of the data.
func (c *writerClient) checkData(st *State, s ai.VSlice, name string) {
	good := st.Num.Le(s.Len, k(0))
	if !good && s.Arr != 0 {
		src, is := st.Ghost["arg.content"].(ai.VRef)
		good = is && st.Holds(s.Arr, s.Off, s.Off.Add(s.Len), src.T, G(st, "op.pos").Sub(s.Off))
	}
	c.r.Ob(c.in, "R03", "data is passed through unchanged", c.where(name), good, st, "the bytes handed to the underlying writer are not the next bytes of the data")
}

// srcCall is a call on the reader given to ReadFrom.
func (c *writerClient) srcCall(st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	st.Note(pos, "source: "+m.Name())
	switch m.Name() {
	case "Read":
		s, is := args[0].(ai.VSlice)
		if !is {
			s = ai.VSlice{}
		}
		var outs []Outcome
		for i := 0; i < 3; i++ {
			b := st.Clone()
			n := b.FreshInt("read", types.Typ[types.Int])
			b.Num.AddLe(k(0), n)
			b.Num.AddLe(n, s.Len)
			if s.Arr != 0 {
				b.SetRange(s.Arr, s.Off, s.Off.Add(n), ai.MkTerm("content", "", []*ai.Term{recv}), G(b, "op.pos").Sub(s.Off), nil)
			}
			var err Val = ai.VNil{}
			switch i {
			case 1:
				err = eofVal
				b.Ghost["op.src"] = vint(k(1))
			case 2:
				err = b.NonNilErr("srcErr")
				// some error other than io.EOF
				for _, x := range b.Assume(b.EqForm(err, eofVal), false) {
					b = x
				}
				b.Ghost["op.src"] = vint(k(2))
				b.Ghost["op.srcerr"] = err
			}
			outs = append(outs, ok(b, ai.Tup(vint(n), err)))
		}
		return outs, true
	case "WriteTo":
		// an arbitrary source that writes itself: everything is written to a
		// writer that discards; other writers are not supported here
		var outs []Outcome
		for _, e := range errCases(st, "srcErr") {
			n := e.st.FreshInt("copied", types.Typ[types.Int64])
			e.st.Num.AddLe(k(0), n)
			e.st.Ghost["op.src"] = vint(k(1))
			if !e.nil {
				e.st.Ghost["op.src"] = vint(k(2))
				e.st.Ghost["op.srcerr"] = e.err
			}
			outs = append(outs, ok(e.st, ai.Tup(vint(n), e.err)))
		}
		return outs, true
	}
	return nil, false
}

// observe calls a getter on a copy of st and returns its value; the getter
// must not change anything.
func (c *writerClient) observe(st *State, v Val, name string) []Outcome {
	m, recv := c.p.methodOf(v, name)
	if m == nil {
		panic(Anchor{"method " + name + " of the wrapped writer"})
	}
	return c.in.CallFn(st.Clone(), m, recv, nil, noPos, -1)
}

// invariants compares the accessors with the ghost state.
func (c *writerClient) invariants(st *State, v Val) {
	get := func(name string, want Val, prop, rule string) {
		for _, o := range c.observe(st, v, name) {
			good := !o.Panic && o.St.Same(o.Val, want)
			c.r.Ob(c.in, prop, rule, c.op, good, o.St, "after %s, %s() is %s, but should be %s", c.op, name, o.St.ShowVal(o.Val), o.St.ShowVal(want))
		}
	}
	get("Status", st.Ghost["status"], "R02", "Status is the status sent")
	get("BytesWritten", st.Ghost["bytes"], "R02", "BytesWritten counts the bytes accepted")
	get("SawError", st.Ghost["err"], "R02", "SawError tells failed writes and second headers")
	get("Unwrap", ref(c.w), "R04", "the wrapper wraps the given writer")
}

// capabilities checks the dynamic type chosen for the wrapper.
func (c *writerClient) capabilities(st *State, v Val) {
	i, is := v.(ai.VIface)
	if !is {
		// the given writer itself: it must be known to be a Writer already
		r, isRef := v.(ai.VRef)
		good := isRef && st.Find(r.T) == st.Find(c.w) && st.Decide(ai.Atom(ai.ImplAtom(st.Find(c.w), c.writerT))) > 0
		c.r.Ob(c.in, "R04", "an already wrapped writer is returned unchanged", c.op, good, st, "NewWriter returns %s", st.ShowVal(v))
		return
	}
	w := st.Find(c.w)
	impl := func(t types.Type) *ai.Form { return ai.Atom(ai.ImplAtom(w, t)) }
	c.r.Ob(c.in, "R04", "an already wrapped writer is returned unchanged", c.op, st.Decide(impl(c.writerT)) < 0, st,
		"NewWriter may wrap a writer which is a Writer already")
	all := []types.Type{c.hijackerT, c.notifierT, c.readerFromT}
	every := impl(c.flusherT)
	for _, t := range all {
		every = ai.And(every, impl(t))
	}
	// may the condition hold?
	may := func(f *ai.Form) bool { return len(st.Clone().Assume(f, true)) > 0 }
	must := func(f *ai.Form) bool { return len(st.Clone().Assume(f, false)) == 0 }
	rule := "capabilities are those of the given writer"
	fl := Impl(i.T, c.flusherT)
	c.r.Ob(c.in, "R04", rule, c.op, !fl || must(impl(c.flusherT)), st, "%s offers Flush although the given writer may not", short(i.T))
	c.r.Ob(c.in, "R04", rule, c.op, fl || !may(impl(c.flusherT)), st, "%s does not offer Flush although the given writer may", short(i.T))
	for _, t := range all {
		has := Impl(i.T, t)
		c.r.Ob(c.in, "R04", rule, c.op, !has || must(every), st, "%s offers %s although the given writer may not offer all optional capabilities", short(i.T), short(t))
		c.r.Ob(c.in, "R04", rule, c.op, has || !may(every), st, "%s does not offer %s although the given writer may offer all optional capabilities", short(i.T), short(t))
	}
	c.r.Ob(c.in, "R04", rule, c.op, Impl(i.T, c.pusherT) && Impl(i.T, c.writerT), st, "%s does not offer Push", short(i.T))
}

// Writer runs the analysis of wrapped response writers (R01 to R04).
func (p *Program) Writer(r *Report) *ai.Interp {
	in := p.NewInterp()
	c := p.newWriterClient(r, in)
	in.H.Invoke = c.invoke
	st := c.newEnv()
	tab := in.NewTable()
	tab.Key = func(s *State, _ []Val) string { return constOf(s, "sent") + constOf(s, "err") }
	if ai.Debug {
		tab.Log = func(s string) { fmt.Println(c.op, s) }
	}
	c.op = "response.NewWriter"
	nw := p.Func("response", "NewWriter")
	for _, o := range in.CallFn(st, nw, []Val{ref(c.w), ref(c.req)}, nil, noPos, -1) {
		if o.Panic {
			r.Ob(in, "R04", "no panic for lack of support", c.op, false, o.St, "NewWriter panics")
			continue
		}
		c.capabilities(o.St, o.Val)
		good := isZero(o.St, "n.WriteHeader") && isZero(o.St, "n.Write") && isZero(o.St, "n.Flush")
		r.Ob(in, "R01", "wrapping sends nothing", c.op, good, o.St, "NewWriter calls the given writer")
		if _, is := o.Val.(ai.VIface); is {
			c.invariants(o.St, o.Val)
			c.resetOp(o.St)
			tab.Add(o.St, []Val{o.Val}, c.op)
		}
	}
	for e := tab.Next(); e != nil; e = tab.Next() {
		v := e.Roots[0].(ai.VIface)
		ms := p.Methods(v.T)
		var names []string
		for n := range ms {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for _, st := range c.start(e.St, n, ms[n]) {
				c.runOp(tab, v, n, ms[n], st.st, st.args)
			}
		}
	}
	c.op = ""
	return in
}

type opStart struct {
	st   *State
	args []Val
}

// start makes the arguments of an operation.
func (c *writerClient) start(st *State, name string, m *ssa.Function) []opStart {
	st = st.Clone()
	st.Trace = nil
	c.resetOp(st)
	ps := m.Signature.Params()
	var args []Val
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		a := genericArg(st, fmt.Sprintf("%s.arg%d", name, i), t)
		args = append(args, a)
		if i < 2 {
			st.Ghost[fmt.Sprintf("arg.%d", i)] = a
		}
		if s, is := a.(ai.VSlice); is {
			st.Ghost["arg.content"] = ref(st.Heap[s.Arr].Segs[0].Src)
		}
		if r, is := a.(ai.VRef); is && types.Identical(t, c.readerT) {
			st.Facts[ai.IsNilAtom(r.T)] = false
			c.srcs[r.T] = true
		}
	}
	var out []opStart
	switch name {
	case "WriteHeader", "MaybeWriteHeader":
		// a final status, or one that is not a status at all (1xx: see DESIGN)
		s := lin(args[0])
		for _, rg := range [][2]int64{{200, 999}, {-1 << 40, 99}, {1000, 1 << 40}} {
			b := st.Clone()
			b.Num.AddLe(k(rg[0]), s)
			b.Num.AddLe(s, k(rg[1]))
			if b.Num.Feasible() {
				out = append(out, opStart{b, args})
			}
		}
	default:
		out = append(out, opStart{st, args})
	}
	return out
}

func (c *writerClient) runOp(tab *ai.Table, v ai.VIface, name string, m *ssa.Function, st *State, args []Val) {
	c.op = short(v.T) + "." + name
	c.ops++
	pre := st.Clone()
	wasSent := isOne(pre, "sent")
	isHeader := name == "WriteHeader" || name == "MaybeWriteHeader"
	valid := true
	if isHeader {
		valid = pre.Num.Le(k(200), lin(args[0])) && pre.Num.Le(lin(args[0]), k(999))
		if name == "WriteHeader" && valid && wasSent {
			st.Ghost["err"] = vbool(true)
		}
	}
	ob := func(prop, rule string, good bool, s *State, f string, a ...interface{}) {
		c.r.Ob(c.in, prop, rule, c.op, good, s, f, a...)
	}
	for _, o := range c.in.CallFn(st, m, append([]Val{v.V}, args...), nil, noPos, -1) {
		s := o.St
		n := func(g string) num.Lin { return G(s, g) }
		second := name == "WriteHeader" && valid && wasSent
		if o.Panic {
			good := second || (isHeader && !valid)
			ob("R04", "no panic for lack of support", good, s, "%s panics", c.op)
		} else {
			ob("R01", "second header call panics", !second, s, "a second WriteHeader does not panic")
		}
		if wasSent || !valid {
			ob("R01", "no status after the first", isZero(s, "n.WriteHeader"), s, "a status is sent although one was sent before or the status is not valid")
		} else {
			switch name {
			case "WriteHeader", "MaybeWriteHeader":
				ob("R01", "the first header call sends its status", isOne(s, "n.WriteHeader") && s.Num.Eq(n("op.status"), lin(args[0])), s, "the first header call does not send its status exactly once")
			case "Write", "ReadFrom", "Flush":
				ob("R01", "an implicit 200 is sent", isOne(s, "n.WriteHeader") && s.Num.Eq(n("op.status"), k(200)), s, "%s does not send status 200 first", name)
			default:
				ob("R01", "other calls send no status", isZero(s, "n.WriteHeader"), s, "%s sends a status", name)
			}
		}
		if !o.Panic {
			c.checkResult(name, s, o.Val, args)
		}
		c.invariants(s, v)
		c.resetOp(s)
		tab.Add(s, []Val{v}, c.op)
	}
}

// checkResult checks the result of an operation that returned.
func (c *writerClient) checkResult(name string, s *State, v Val, args []Val) {
	ob := func(prop, rule string, good bool, f string, a ...interface{}) {
		c.r.Ob(c.in, prop, rule, c.op, good, s, f, a...)
	}
	st := G(s, "status")
	bl := s.Decide(ai.Or(c.bodiless, ai.Or(ai.EqL(st, k(204)), ai.EqL(st, k(304)))))
	switch name {
	case "Write":
		p := args[0].(ai.VSlice)
		if bl > 0 {
			ob("R03", "a bodiless Write claims success", s.Same(tup(v, 0), vint(p.Len)) && s.Same(tup(v, 1), ai.VNil{}), "Write on a bodiless response returns %s", s.ShowVal(v))
			return
		}
		ob("R02", "the writer's result is returned", s.Num.Eq(lin(tup(v, 0)), G(s, "op.pos")) && (s.Same(tup(v, 1), s.Ghost["op.err"])),
			"Write returns %s, the underlying writer accepted %s bytes and returned %s", s.ShowVal(v), s.ShowVal(s.Ghost["op.pos"]), s.ShowVal(s.Ghost["op.err"]))
		full := s.Num.Eq(G(s, "op.pos"), p.Len) || s.IsNil(s.Ghost["op.err"]) < 0
		ob("R03", "all data is passed through", full && (!isZero(s, "n.Write") || s.Num.Le(p.Len, k(0))), "Write does not hand over all data")
	case "ReadFrom":
		if bl > 0 {
			drained := isOne(s, "op.src") && s.Same(tup(v, 1), ai.VNil{}) || s.Num.Eq(G(s, "op.src"), k(2)) && s.Same(tup(v, 1), s.Ghost["op.srcerr"])
			ob("R03", "a bodiless ReadFrom drains its source", drained, "ReadFrom on a bodiless response returns %s without draining its source", s.ShowVal(v))
			return
		}
		ob("R02", "the writer's result is returned", s.Num.Eq(lin(tup(v, 0)), G(s, "op.pos")) && s.Same(tup(v, 1), s.Ghost["op.err"]),
			"ReadFrom returns %s, the underlying writer accepted %s bytes and returned %s", s.ShowVal(v), s.ShowVal(s.Ghost["op.pos"]), s.ShowVal(s.Ghost["op.err"]))
		ob("R03", "all data is passed through", !isZero(s, "op.src"), "ReadFrom does not hand over its source")
	case "Flush":
		ob("R04", "Flush is forwarded", isOne(s, "n.Flush"), "Flush calls the underlying Flush %s times", s.ShowVal(s.Ghost["n.Flush"]))
	case "Header":
		ob("R04", "the header map is the writer's", s.Same(v, ref(ai.Named("w.Header()", nil))), "Header returns %s", s.ShowVal(v))
	case "Hijack", "CloseNotify":
		ob("R04", name+" is forwarded", isOne(s, "n."+name) && s.Same(v, s.Ghost["op.ret"]), "%s is not forwarded", name)
	case "Push":
		can := s.Decide(ai.Atom(ai.ImplAtom(s.Find(c.w), c.pusherT)))
		switch {
		case can > 0:
			ob("R04", "push is forwarded unchanged", isOne(s, "n.Push") && s.Same(v, s.Ghost["op.ret"]), "Push is not forwarded")
		default:
			ob("R04", "push without support is refused", can < 0 && isZero(s, "n.Push") && isStdErr(s, v, "net/http.ErrNotSupported"), "Push without support returns %s", s.ShowVal(v))
		}
	}
}
