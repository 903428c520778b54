package check

import (
	"go/token"
	"go/types"

	"verif/checker/ai"
	"verif/checker/num"
)

// httpEnv is the environment of Serve and of the adaptor: an arbitrary
// response writer w and an arbitrary response with body, both opaque.  Their
// methods return every result allowed by their contracts; most may panic.
//
// Ghost state: sent, status, bytes (accepted by w), pushed (number of pushes),
// closes (of the body), src (0 body not finished, 1 delivered completely, 2
// failed), srcPos (bytes delivered by the body), out (bytes of the body that
// reached w), err1 (first error), errc (last error while copying), panicVal.
type httpEnv struct {
	p  *Program
	r  *Report
	in *ai.Interp
	op string

	serve bool // check the obligations of Serve
	w     *ai.Term
	body  *ai.Term
	req   *ai.Term

	respWriterT, writerT, pusherT, headerT, bodyT types.Type
	hdrs                                          Val
	whdr                                          *ai.Term
	status                                        Val
	key, pushKey                                  Val
	onFail                                        func(*State)
	whPanics                                      bool // w.WriteHeader may panic
	extra                                         func(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool)
}

func (p *Program) newHTTPEnv(r *Report, in *ai.Interp) *httpEnv {
	e := &httpEnv{p: p, r: r, in: in}
	e.respWriterT = p.Std("net/http", "ResponseWriter")
	e.writerT = p.Type("response", "Writer")
	e.pusherT = p.Std("net/http", "Pusher")
	e.headerT = p.Std("net/http", "Header")
	e.bodyT = p.Type("body", "Body")
	e.pushKey = ref(ai.StrConst("Push"))
	in.H.Invoke = e.invoke
	return e
}

func (e *httpEnv) newState() *State {
	st := ai.NewState()
	e.w = ai.Named("w", e.respWriterT)
	e.whdr = ai.Named("w.Header()", e.headerT)
	st.Facts[ai.IsNilAtom(e.w)] = false
	st.Facts[ai.IsNilAtom(e.whdr)] = false
	for _, g := range []string{"sent", "status", "bytes", "pushed", "closes", "src", "srcPos", "out", "nWriteHeader"} {
		st.Ghost[g] = vint(k(0))
	}
	for _, g := range []string{"err1", "errc", "panicVal"} {
		st.Ghost[g] = ai.VNil{}
	}
	return st
}

// roles finds the parts of a response through its accessors, and assumes what
// holds for every response that was built.
func (e *httpEnv) roles(st *State, recv Val, respT types.Type) *State {
	get := func(name string) Val {
		m := e.p.Methods(types.NewPointer(respT))[name]
		if m == nil {
			panic(Anchor{"method " + name + " of response.Response"})
		}
		outs := e.in.CallFn(st, m, []Val{recv}, nil, noPos, -1)
		if len(outs) != 1 || outs[0].Panic {
			panic(ai.TooHard{Why: "accessor " + name + " of Response"})
		}
		st = outs[0].St
		return outs[0].Val
	}
	e.status = get("Status")
	e.hdrs = get("Headers")
	b, is := get("Body").(ai.VRef)
	if !is {
		panic(ai.TooHard{Why: "the body of a response"})
	}
	e.body = b.T
	st.Facts[ai.IsNilAtom(e.body)] = false
	st.Num.AddLe(k(200), lin(e.status))
	st.Num.AddLe(lin(e.status), k(999))
	return st
}

func (e *httpEnv) ob(prop, rule string, good bool, st *State, f string, a ...interface{}) {
	e.r.Ob(e.in, prop, rule, e.op, good, st, f, a...)
}

func (e *httpEnv) failed(st *State, err Val) {
	if e.onFail != nil {
		e.onFail(st)
	}
	if st.IsNil(st.Ghost["err1"]) > 0 {
		st.Ghost["err1"] = err
	}
}

// mayPanic adds the outcome in which the environment panics.
func (e *httpEnv) mayPanic(outs []Outcome, st *State, what string, pos token.Pos) []Outcome {
	b := st.Clone()
	b.Note(pos, what+" panics")
	t := ai.FreshTerm("panic", types.NewInterfaceType(nil, nil))
	b.Facts[ai.IsNilAtom(t)] = false
	b.Ghost["panicVal"] = ref(t)
	if e.onFail != nil {
		e.onFail(b)
	}
	return append(outs, panicking(b, ref(t)))
}

func (e *httpEnv) invoke(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	switch recv {
	case st.Find(e.w):
		return e.writerCall(st, m, args, pos)
	}
	if e.body != nil && recv == st.Find(e.body) {
		return e.bodyCall(st, m, args, pos)
	}
	if e.extra != nil {
		return e.extra(in, st, recv, m, args, pos)
	}
	return nil, false
}

func (e *httpEnv) accepted(st *State, n num.Lin) {
	b := G(st, "bytes").Add(n)
	st.Num.AddLe(b, num.Big)
	st.Ghost["bytes"] = vint(st.Num.Norm(b))
	st.Ghost["out"] = vint(st.Num.Norm(G(st, "out").Add(n)))
}

func (e *httpEnv) writerCall(st *State, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	st.Note(pos, "response writer: "+m.Name())
	var outs []Outcome
	switch m.Name() {
	case "Header":
		outs = e.mayPanic(outs, st, "Header", pos)
		return append(outs, ok(st, ref(e.whdr))), true
	case "WriteHeader":
		if e.whPanics {
			outs = e.mayPanic(outs, st, "WriteHeader", pos)
		}
		e.sendStatus(st, lin(args[0]))
		return append(outs, ok(st, ai.VStruct{})), true
	case "MaybeWriteHeader":
		if isZero(st, "sent") {
			e.sendStatus(st, lin(args[0]))
		}
		return append(outs, ok(st, ai.VStruct{})), true
	case "Status":
		return append(outs, ok(st, st.Ghost["status"])), true
	case "BytesWritten":
		return append(outs, ok(st, st.Ghost["bytes"])), true
	case "SawError":
		return append(outs, ok(st, st.FreshVal("sawError", types.Typ[types.Bool]))), true
	case "Unwrap":
		return append(outs, ok(st, st.FreshVal("unwrapped", e.respWriterT))), true
	case "Flush":
		return append(outs, ok(st, ai.VStruct{})), true
	case "Write":
		outs = e.mayPanic(outs, st, "Write", pos)
		if e.serve {
			e.ob("R09", "body after status", isOne(st, "sent"), st, "body bytes are written before the status")
			e.checkData(st, args[0])
		}
		s, _ := args[0].(ai.VSlice)
		for _, c := range errCases(st, "writeErr") {
			n := c.st.FreshInt("written", types.Typ[types.Int])
			c.st.Num.AddLe(k(0), n)
			c.st.Num.AddLe(n, s.Len)
			if c.nil {
				c.st.Num.AddEq(n, s.Len)
			} else {
				e.failed(c.st, c.err)
				c.st.Ghost["errc"] = c.err
			}
			e.implicit(c.st)
			e.accepted(c.st, n)
			outs = append(outs, ok(c.st, ai.Tup(vint(n), c.err)))
		}
		return outs, true
	case "ReadFrom":
		outs = e.mayPanic(outs, st, "ReadFrom", pos)
		r, is := args[0].(ai.VRef)
		src := is && st.Find(r.T) == st.Find(e.body)
		if e.serve {
			e.ob("R09", "body after status", isOne(st, "sent"), st, "the body is handed over before the status")
			e.ob("R09", "the body is sent unchanged", src && isZero(st, "out") && isZero(st, "srcPos") && isZero(st, "src"), st, "ReadFrom gets %s", st.ShowVal(args[0]))
		}
		if !src {
			return nil, false
		}
		e.usesBody(st, "ReadFrom")
		for _, c := range errCases(st, "readFromErr") {
			n := c.st.FreshInt("copied", types.Typ[types.Int64])
			c.st.Num.AddLe(k(0), n)
			e.implicit(c.st)
			e.accepted(c.st, n)
			c.st.Ghost["srcPos"] = c.st.Ghost["out"]
			if c.nil {
				c.st.Ghost["src"] = vint(k(1))
			} else {
				c.st.Ghost["src"] = vint(k(2))
				e.failed(c.st, c.err)
				c.st.Ghost["errc"] = c.err
			}
			outs = append(outs, ok(c.st, ai.Tup(vint(n), c.err)))
		}
		return outs, true
	case "Push":
		outs = e.mayPanic(outs, st, "Push", pos)
		if e.serve {
			e.ob("R09", "pushes before the status", isZero(st, "sent"), st, "a push follows the status")
			good := false
			if v, is := st.Ghost["pushList"].(ai.VSlice); is {
				good = st.Same(args[0], st.Elem(v.Arr, v.Off.Add(G(st, "pushed")), types.Typ[types.String])) && st.Num.Lt(G(st, "pushed"), v.Len)
			}
			e.ob("R09", "the Push values are pushed in order", good, st, "push of %s is not the next Push value", st.ShowVal(args[0]))
		}
		st.Ghost["pushed"] = vint(st.Num.Norm(G(st, "pushed").AddK(1)))
		unsupported := e.unsupported(st)
		for _, c := range errCases(st, "pushErr") {
			if c.nil {
				outs = append(outs, ok(c.st, c.err))
				continue
			}
			f := c.st.IsForm(c.err, unsupported)
			b := c.st.Clone()
			for _, s := range c.st.Assume(f, true) {
				outs = append(outs, ok(s, c.err))
			}
			for _, s := range b.Assume(f, false) {
				e.failed(s, c.err)
				outs = append(outs, ok(s, c.err))
			}
		}
		return outs, true
	}
	return nil, false
}

// unsupported is http.ErrNotSupported.
func (e *httpEnv) unsupported(st *State) Val { return sentinel("net/http.ErrNotSupported") }

// implicit is the status 200 which net/http sends by itself.
func (e *httpEnv) implicit(st *State) {
	if isZero(st, "sent") {
		st.Ghost["sent"] = vint(k(1))
		st.Ghost["status"] = vint(k(200))
	}
}

func (e *httpEnv) sendStatus(st *State, s num.Lin) {
	if e.serve {
		e.ob("R09", "the status is sent once", isZero(st, "sent"), st, "the status is sent again")
		e.ob("R09", "the status is the response's", st.Num.Eq(s, lin(e.status)), st, "status %s is sent", st.Num.Norm(s))
		e.checkHeaders(st)
		can := st.Decide(ai.Atom(ai.ImplAtom(st.Find(e.w), e.pusherT)))
		all := true
		if v, is := st.Ghost["pushList"].(ai.VSlice); is {
			all = st.Num.Eq(G(st, "pushed"), v.Len)
		}
		e.ob("R09", "every Push value is pushed before the status", all || can < 0, st, "the status is sent after %s of the pushes", st.ShowVal(st.Ghost["pushed"]))
	}
	bump(st, "nWriteHeader")
	if isZero(st, "sent") {
		st.Ghost["sent"] = vint(k(1))
		st.Ghost["status"] = vint(st.Num.Norm(s))
	}
}

// checkHeaders is run when the status is sent: an arbitrary header of the
// response (but Push) has reached the writer.
func (e *httpEnv) checkHeaders(st *State) {
	want := st.Ghost["hdrValue"]
	for _, g := range e.in.MapGet(st.Clone(), ref(e.whdr), e.headerT, e.key) {
		if _, none := want.(ai.VNil); none && isZero(st, "hdrPresent") {
			continue
		}
		e.ob("R09", "every header is sent before the status", g.Present && sameSeq(g.St, g.V, want), g.St, "an arbitrary header other than Push has not been handed over: %s instead of %s", g.St.ShowVal(g.V), g.St.ShowVal(want))
	}
	for _, g := range e.in.MapGet(st.Clone(), ref(e.whdr), e.headerT, e.pushKey) {
		e.ob("R09", "the Push header is not sent", !g.Mod || !g.Present, g.St, "the Push header is set on the writer")
	}
}

// sameSeq tells whether two slices hold the same elements.
func sameSeq(st *State, a, b Val) bool {
	x, ok1 := st.Canon(a).(ai.VSlice)
	y, ok2 := st.Canon(b).(ai.VSlice)
	empty := func(v ai.VSlice, is bool) bool { return !is || st.Num.Le(v.Len, k(0)) }
	if empty(x, ok1) && empty(y, ok2) {
		return true
	}
	if !ok1 || !ok2 || !st.Num.Eq(x.Len, y.Len) {
		return false
	}
	if x.Arr == y.Arr && st.Num.Eq(x.Off, y.Off) {
		return true
	}
	o := st.Heap[y.Arr]
	if o == nil {
		return false
	}
	// b consists of known parts; a must hold the same
	pos := y.Off
	for i := 0; i < len(o.Segs)+1 && !st.Num.Le(y.Off.Add(y.Len), pos); i++ {
		found := false
		for _, s := range o.Segs {
			if !st.Num.Le(s.Lo, pos) || !st.Num.Lt(pos, s.Hi) && !st.Num.Le(y.Off.Add(y.Len), s.Hi) {
				continue
			}
			end := s.Hi
			if st.Num.Le(y.Off.Add(y.Len), end) {
				end = y.Off.Add(y.Len)
			}
			d := x.Off.Sub(y.Off) // index in a = index in b + d
			switch {
			case s.Src != nil:
				if !st.Holds(x.Arr, pos.Add(d), end.Add(d), s.Src, s.D.Sub(d)) {
					return false
				}
			case s.V != nil && st.Num.Eq(end.Sub(pos), k(1)):
				if !st.Same(st.Elem(x.Arr, pos.Add(d), types.Typ[types.String]), s.V) {
					return false
				}
			default:
				return false
			}
			pos = end
			found = true
			break
		}
		if !found {
			return false
		}
	}
	return st.Num.Le(y.Off.Add(y.Len), pos)
}

func (e *httpEnv) checkData(st *State, v Val) {
	s, _ := v.(ai.VSlice)
	good := st.Num.Le(s.Len, k(0))
	if !good && s.Arr != 0 {
		good = st.Holds(s.Arr, s.Off, s.Off.Add(s.Len), ai.MkTerm("content", "", []*ai.Term{st.Find(e.body)}), G(st, "out").Sub(s.Off))
	}
	e.ob("R09", "the body is sent unchanged", good, st, "the bytes written are not the next bytes of the body")
}

func (e *httpEnv) usesBody(st *State, name string) {
	if e.serve {
		e.ob("R08", "no use after close", isZero(st, "closes"), st, "%s of the body is called after Close", name)
	}
}

func (e *httpEnv) bodyCall(st *State, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	st.Note(pos, "body: "+m.Name())
	var outs []Outcome
	switch m.Name() {
	case "Read":
		e.usesBody(st, "Read")
		outs = e.mayPanic(outs, st, "Read", pos)
		s, _ := args[0].(ai.VSlice)
		for i := 0; i < 3; i++ {
			b := st.Clone()
			n := b.FreshInt("read", types.Typ[types.Int])
			b.Num.AddLe(k(0), n)
			b.Num.AddLe(n, s.Len)
			if s.Arr != 0 {
				b.SetRange(s.Arr, s.Off, s.Off.Add(n), ai.MkTerm("content", "", []*ai.Term{b.Find(e.body)}), G(b, "srcPos").Sub(s.Off), nil)
			}
			b.Ghost["srcPos"] = vint(b.Num.Norm(G(b, "srcPos").Add(n)))
			b.Num.AddLe(G(b, "srcPos"), num.Big)
			var err Val = ai.VNil{}
			switch i {
			case 1:
				err = eofVal
				b.Ghost["src"] = vint(k(1))
			case 2:
				err = b.NonNilErr("bodyErr")
				for _, x := range b.Assume(b.EqForm(err, eofVal), false) {
					b = x
				}
				b.Ghost["src"] = vint(k(2))
				e.failed(b, err)
				b.Ghost["errc"] = err
			}
			outs = append(outs, ok(b, ai.Tup(vint(n), err)))
		}
		return outs, true
	case "WriteTo":
		e.usesBody(st, "WriteTo")
		outs = e.mayPanic(outs, st, "WriteTo", pos)
		return append(outs, e.bodyWriteTo(st, args, pos)...), true
	case "Close":
		if e.serve {
			e.ob("R08", "the body is closed once", isZero(st, "closes"), st, "the body is closed again")
		}
		bump(st, "closes")
		outs = e.mayPanic(outs, st, "Close", pos)
		for _, c := range errCases(st, "closeErr") {
			if !c.nil {
				e.failed(c.st, c.err)
			}
			outs = append(outs, ok(c.st, c.err))
		}
		return outs, true
	case "BytesRemaining":
		n := st.FreshInt("remaining", types.Typ[types.Int64])
		st.Num.AddLe(k(-1), n)
		return append(outs, ok(st, vint(n))), true
	case "Unwrap":
		return append(outs, ok(st, st.FreshResults("Unwrap", m.Type().(*types.Signature)))), true
	}
	return nil, false
}

// bodyWriteTo: the body writes itself to the writer.
func (e *httpEnv) bodyWriteTo(st *State, args []Val, pos token.Pos) []Outcome {
	var outs []Outcome
	finish := func(st *State, n num.Lin, werr Val, failedWrite bool) {
		st.Ghost["srcPos"] = st.Ghost["out"]
		if failedWrite {
			st.Ghost["src"] = vint(k(2))
			outs = append(outs, ok(st, ai.Tup(vint(n), werr)))
			return
		}
		for _, c := range errCases(st, "bodyErr") {
			if c.nil {
				c.st.Ghost["src"] = vint(k(1))
			} else {
				c.st.Ghost["src"] = vint(k(2))
				e.failed(c.st, c.err)
				c.st.Ghost["errc"] = c.err
			}
			outs = append(outs, ok(c.st, ai.Tup(vint(n), c.err)))
		}
	}
	if e.serve {
		e.ob("R09", "body after status", isOne(st, "sent"), st, "the body writes itself before the status")
		r, is := args[0].(ai.VRef)
		good := is && st.Find(r.T) == st.Find(e.w) && isZero(st, "out") && isZero(st, "srcPos")
		e.ob("R09", "the body is sent unchanged", good, st, "the body writes itself to %s", st.ShowVal(args[0]))
	}
	switch w := args[0].(type) {
	case ai.VRef:
		n := st.FreshInt("copied", types.Typ[types.Int64])
		st.Num.AddLe(k(0), n)
		e.implicit(st)
		e.accepted(st, n)
		finish(st, n, nil, false)
		return outs
	case ai.VIface:
		m := e.p.Methods(w.T)["Write"]
		if m == nil {
			break
		}
		none := st.Clone()
		finish(none, k(0), nil, false)
		buf := bytesArg(st, "bodyData")
		for _, o := range e.in.CallFn(st, m, []Val{w.V, buf}, nil, pos, -1) {
			if o.Panic {
				outs = append(outs, o)
				continue
			}
			n := lin(tup(o.Val, 0))
			werr := tup(o.Val, 1)
			null, not := forkNil(o.St, werr)
			for _, s := range null {
				finish(s, n, nil, false)
			}
			for _, s := range not {
				finish(s, n, werr, true)
			}
		}
		return outs
	}
	panic(ai.TooHard{Why: "the body writes itself to " + st.ShowVal(args[0])})
}

// Serve runs the analysis of Response.Serve (R08, R09).
func (p *Program) Serve(r *Report) *ai.Interp {
	in := p.NewInterp()
	e := p.newHTTPEnv(r, in)
	e.serve, e.whPanics = true, true
	e.op = "response.(*Response).Serve"
	respT := p.Type("response", "Response")
	ptr := types.NewPointer(respT)
	st := e.newState()
	resp := ai.Named("resp", ptr)
	st.Facts[ai.IsNilAtom(resp)] = false
	st = e.roles(st, ref(resp), respT)

	// an arbitrary header name, not Push
	kt := ai.Named("someHeader", types.Typ[types.String])
	e.key = ref(kt)
	st.Skolem = []Val{e.key}
	st = st.Assume(st.EqForm(e.key, e.pushKey), false)[0]

	serve := p.Methods(ptr)["Serve"]
	if serve == nil {
		panic(Anchor{"method Serve of response.Response"})
	}
	var starts []*State
	for _, a := range in.MapGet(st, e.hdrs, e.headerT, e.key) {
		a.St.Ghost["hdrValue"] = ai.VNil{}
		a.St.Ghost["hdrPresent"] = vint(k(0))
		if a.Present {
			a.St.Ghost["hdrValue"] = a.V
			a.St.Ghost["hdrPresent"] = vint(k(1))
		}
		for _, b := range in.MapGet(a.St, e.hdrs, e.headerT, e.pushKey) {
			b.St.Ghost["pushList"] = ai.VNil{}
			if b.Present {
				b.St.Ghost["pushList"] = b.V
			}
			for _, c := range in.MapGet(b.St, ref(e.whdr), e.headerT, e.key) {
				for _, d := range in.MapGet(c.St, ref(e.whdr), e.headerT, e.pushKey) {
					starts = append(starts, d.St)
				}
			}
		}
	}
	wmap := func(st *State) ai.ObjID { return st.Target(e.whdr, e.headerT) }
	in.H.MapAccess = func(in *ai.Interp, st *State, m ai.ObjID, key Val, write bool, pos token.Pos) {
		if !write {
			return
		}
		if m == wmap(st) {
			e.ob("R09", "headers before the status", isZero(st, "sent"), st, "a header is changed after the status was sent")
			return
		}
		if h, is := st.Canon(e.hdrs).(ai.VRef); is {
			e.ob("R09", "the response's headers are not modified", m != st.Target(h.T, e.headerT), st, "Serve changes the response's header map")
		}
	}
	in.H.ArrayAccess = func(in *ai.Interp, st *State, a ai.ObjID, write bool, pos token.Pos) {
		h, is := st.Canon(e.hdrs).(ai.VRef)
		if is && write {
			mine := false
			for t, id := range st.PtrObj {
				if id == a && mentions(t, h.T) {
					mine = true
				}
			}
			e.ob("R09", "the response's headers are not modified", !mine, st, "Serve changes a list of header values of the response")
		}
	}
	for _, s := range starts {
		s.Trace = nil
		for _, o := range in.CallFn(s, serve, []Val{ref(resp), ref(e.w)}, nil, noPos, -1) {
			x := o.St
			e.ob("R08", "the body is closed on every way out", isOne(x, "closes"), x, "the body is closed %s times", x.ShowVal(x.Ghost["closes"]))
			if o.Panic {
				e.ob("R09", "no panic of its own", x.IsNil(x.Ghost["panicVal"]) < 0, x, "Serve panics although neither writer nor body did")
				continue
			}
			e.ob("R08", "a panic is not swallowed", x.IsNil(x.Ghost["panicVal"]) > 0, x, "Serve returns although the writer or the body panicked")
			e1, ec := x.Ghost["err1"], x.Ghost["errc"]
			if x.IsNil(e1) > 0 {
				e.ob("R08", "nil means success", x.Same(o.Val, ai.VNil{}), x, "Serve returns %s although nothing failed", x.ShowVal(o.Val))
				done := isOne(x, "src") && x.Num.Eq(G(x, "out"), G(x, "srcPos")) && isOne(x, "sent")
				e.ob("R09", "status and whole body are sent", done, x, "Serve returns nil without having sent status and body")
			} else {
				good := x.IsNil(o.Val) < 0 && (x.Same(o.Val, e1) || (x.IsNil(ec) < 0 && x.Same(o.Val, ec)))
				e.ob("R08", "the first error is returned", good, x, "Serve returns %s although %s occurred", x.ShowVal(o.Val), x.ShowVal(e1))
			}
		}
	}
	return in
}

func isString(t types.Type) bool {
	b, is := t.Underlying().(*types.Basic)
	return is && b.Info()&types.IsString != 0
}

func mentions(t, sub *ai.Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, sub) {
			return true
		}
	}
	return false
}
