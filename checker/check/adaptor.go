package check

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// The metrics, by the exported names of their variables.
var metrics = []struct {
	name string
	vec  bool
	val  string // what an observation must be: "1", "bytes" or "" (anything)
}{
	{"PromRequestsTotal", true, "1"},
	{"PromLatencyTotal", true, ""},
	{"PromRecvBytesTotal", true, ""},
	{"PromSendBytesTotal", true, "bytes"},
	{"PromLatencyHist", false, ""},
	{"PromRecvBytesHist", false, ""},
	{"PromSendBytesHist", false, "bytes"},
}

const panicsMetric = "PromPanicsTotal"

// Adaptor runs the analysis of Adaptor.ServeHTTP (H01, H02): an arbitrary
// handler returns an arbitrary response or panics, the writer and the body are
// those of Serve.
func (p *Program) Adaptor(r *Report) *ai.Interp {
	in := p.NewInterp()
	e := p.newHTTPEnv(r, in)
	e.op = "handler.Adaptor.ServeHTTP"
	adT := p.Type("handler", "Adaptor")
	handlerT := p.Type("handler", "Handler")
	respT := p.Type("response", "Response")
	panicErrT := p.Type("handler", "PanicError")
	reqT := types.NewPointer(p.Std("net/http", "Request"))
	serve := p.Methods(adT)["ServeHTTP"]
	if serve == nil {
		panic(Anchor{"method ServeHTTP of handler.Adaptor"})
	}
	isVec := map[string]bool{}
	known := map[string]bool{panicsMetric: true}
	for _, m := range metrics {
		isVec[m.name] = m.vec
		known[m.name] = true
	}
	for n := range known {
		if p.Pkgs["handler"].Var(n) == nil {
			panic(Anchor{"variable handler." + n})
		}
	}
	metricOf := func(t *ai.Term) string {
		if t.Op == "named" && len(t.S) > 7 && t.S[:7] == "metric:" {
			return t.S[7:]
		}
		return ""
	}

	st := e.newState()
	inner := ai.Named("inner", handlerT)
	onPanic := ai.Named("OnPanic", p.Pkgs["handler"].Var("OnPanic").Type().Underlying().(*types.Pointer).Elem())
	req := ai.Named("req", reqT)
	e.req = req
	for _, t := range []*ai.Term{inner, onPanic, req} {
		st.Facts[ai.IsNilAtom(t)] = false
	}
	for _, g := range []string{"handled", "hook", "need500", "hookPanics"} {
		st.Ghost[g] = vint(k(0))
	}
	for n := range known {
		st.Ghost["n."+n] = vint(k(0))
		st.Ghost["label."+n], st.Ghost["value."+n] = ai.VNil{}, ai.VNil{}
	}
	e.onFail = func(st *State) {
		if isZero(st, "sent") {
			st.Ghost["need500"] = vint(k(1))
		}
	}
	in.H.Global = func(in *ai.Interp, st *State, g *ssa.Global) (Val, bool) {
		if g.Pkg != p.Pkgs["handler"] {
			return nil, false
		}
		if g.Name() == "OnPanic" {
			return ref(onPanic), true
		}
		if known[g.Name()] {
			t := ai.Named("metric:"+g.Name(), g.Type().Underlying().(*types.Pointer).Elem())
			st.Facts[ai.IsNilAtom(t)] = false
			return ref(t), true
		}
		return nil, false
	}
	in.H.Call = func(in *ai.Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		if fn.Signature.Recv() == nil || len(args) < 2 {
			return nil, false
		}
		v, is := args[0].(ai.VRef)
		if !is || !isVec[metricOf(v.T)] {
			return nil, false
		}
		counter := func(st *State, label Val) Outcome {
			l, is := label.(ai.VRef)
			if !is {
				panic(ai.TooHard{Why: "the label of a metric"})
			}
			t := ai.MkTerm("counter", "", []*ai.Term{v.T, st.Find(l.T)})
			t.T = fn.Signature.Results().At(0).Type()
			st.Facts[ai.IsNilAtom(t)] = false
			return ok(st, ref(t))
		}
		switch fn.Name() {
		case "With":
			var outs []Outcome
			for _, g := range in.MapGet(st, args[1], fn.Signature.Params().At(0).Type(), ref(ai.StrConst("code"))) {
				e.ob("H02", "every metric has its code label", g.Present, g.St, "the label code of %s is missing", metricOf(v.T))
				if g.Present {
					outs = append(outs, counter(g.St, g.V))
				}
			}
			return outs, true
		case "WithLabelValues":
			if s, is := args[1].(ai.VSlice); is && st.Num.Eq(s.Len, k(1)) {
				return []Outcome{counter(st, st.Elem(s.Arr, s.Off, types.Typ[types.String]))}, true
			}
		}
		return nil, false
	}
	e.extra = func(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
		if recv == st.Find(inner) && m.Name() == "Handle" {
			st.Note(pos, "handler: Handle")
			e.ob("H01", "the handler is called once with the request", isZero(st, "handled") && st.Same(args[0], ref(req)), st, "Handle is called again or with another request")
			bump(st, "handled")
			outs := e.mayPanic(nil, st, "Handle", pos)
			v := st.ValOf(ai.Named("resp", respT), respT)
			id := st.NewCells(respT, "resp", pos)
			st.WriteCells(id, "", v)
			st = e.roles(st, ai.VPtr{Obj: id}, respT)
			return append(outs, ok(st, v)), true
		}
		name, label := metricOf(recv), Val(ai.VNil{})
		if recv.Op == "counter" {
			name, label = metricOf(recv.Args[0]), ref(recv.Args[1])
		}
		if name == "" {
			return nil, false
		}
		st.Note(pos, name+": "+m.Name())
		var v Val
		switch m.Name() {
		case "Inc":
			v = vint(k(1))
		case "Add", "Observe":
			v = args[0]
		default:
			return nil, false
		}
		bump(st, "n."+name)
		st.Ghost["label."+name], st.Ghost["value."+name] = label, v
		return []Outcome{ok(st, ai.VStruct{})}, true
	}
	counted := func(x *State, prop, rule string) {
		st := x
		for _, m := range metrics {
			e.ob(prop, rule, isOne(st, "n."+m.name), st, "%s was changed %s times", m.name, st.ShowVal(st.Ghost["n."+m.name]))
			if prop != "H02" {
				continue
			}
			if m.vec {
				l, is := st.Canon(st.Ghost["label."+m.name]).(ai.VRef)
				good := is && (l.T == ai.Itoa(st, G(st, "status")) || l.T.Op == "itoa" && st.Num.Eq(l.T.L[0], G(st, "status")))
				e.ob("H02", "the code label is the status that was sent", good && isOne(st, "sent"), st, "%s is counted under %s, the status sent is %s", m.name, st.ShowVal(st.Ghost["label."+m.name]), st.ShowVal(st.Ghost["status"]))
			}
			v := st.Canon(st.Ghost["value."+m.name])
			switch m.val {
			case "1":
				i, is := v.(ai.VInt)
				f, is2 := v.(ai.VRef)
				good := is && st.Num.Eq(i.L, k(1)) || is2 && (f.T.Op == "float" && f.T.S == "1" || f.T.Op == "i2f" && st.Num.Eq(f.T.L[0], k(1)))
				e.ob("H02", "a request counts as one", good, st, "%s is increased by %s", m.name, st.ShowVal(v))
			case "bytes":
				f, is := v.(ai.VRef)
				good := is && (f.T.Op == "i2f" && st.Num.Eq(f.T.L[0], G(st, "bytes")) || f.T.Op == "float" && f.T.S == "0" && isZero(st, "bytes"))
				e.ob("H02", "the bytes counted are those the writer accepted", good, st, "%s gets %s, the writer accepted %s", m.name, st.ShowVal(v), st.ShowVal(st.Ghost["bytes"]))
			}
		}
	}
	bad := func(st *State) int { // 1: something failed, -1: nothing did
		p, q := st.IsNil(st.Ghost["panicVal"]), st.IsNil(st.Ghost["err1"])
		switch {
		case p < 0 || q < 0:
			return 1
		case p > 0 && q > 0:
			return -1
		}
		return 0
	}
	panicCount := func(st *State) {
		b := bad(st)
		n := "n." + panicsMetric
		e.ob("H02", "panics are counted once", b > 0 && isOne(st, n) || b < 0 && isZero(st, n), st, "the panic counter was changed %s times", st.ShowVal(st.Ghost[n]))
	}
	in.H.CallOpaque = func(in *ai.Interp, st *State, f *ai.Term, sig *types.Signature, args []Val, pos token.Pos) ([]Outcome, bool) {
		if f != st.Find(onPanic) {
			return nil, false
		}
		st.Note(pos, "OnPanic")
		e.ob("H01", "the hook is called after the reply", isOne(st, "sent"), st, "OnPanic is called before a status was sent")
		counted(st, "H01", "the hook is called after the metrics")
		e.ob("H01", "the hook is called at most once", isZero(st, "hook"), st, "OnPanic is called again")
		bump(st, "hook")
		pv := st.Ghost["panicVal"]
		good := false
		if st.IsNil(pv) < 0 {
			if w, is := st.Canon(args[0]).(ai.VIface); is && types.Identical(w.T, panicErrT) {
				// wrapped: only if it is not an error itself
				s, is := w.V.(ai.VStruct)
				pr, isRef := st.Canon(pv).(ai.VRef)
				isErr := isRef && st.Decide(ai.Atom(ai.ImplAtom(pr.T, types.Universe.Lookup("error").Type()))) >= 0
				good = is && len(s.F) == 1 && st.Same(s.F[0], pv) && !isErr
			} else {
				good = st.Same(args[0], pv)
			}
		} else {
			good = st.IsNil(args[0]) < 0 && (st.Same(args[0], st.Ghost["err1"]) || st.IsNil(st.Ghost["errc"]) < 0 && st.Same(args[0], st.Ghost["errc"]))
		}
		e.ob("H01", "the hook gets the panic value or the error", good, st, "OnPanic gets %s", st.ShowVal(args[0]))
		b := st.Clone()
		b.Ghost["hookPanics"] = vint(k(1))
		return []Outcome{ok(st, ai.VStruct{}), panicking(b, ref(ai.FreshTerm("hookPanic", nil)))}, true
	}

	a := ai.VStruct{}
	u, is := adT.Underlying().(*types.Struct)
	if !is {
		panic(ai.TooHard{Why: "Adaptor is not a struct"})
	}
	for i := 0; i < u.NumFields(); i++ {
		if types.Identical(u.Field(i).Type(), handlerT) {
			a.F = append(a.F, ref(inner))
		} else {
			a.F = append(a.F, st.FreshVal(u.Field(i).Name(), u.Field(i).Type()))
		}
	}
	for _, o := range in.CallFn(st, serve, []Val{a, ref(e.w), ref(req)}, nil, noPos, -1) {
		x := o.St
		if o.Panic {
			e.ob("H01", "no panic leaves the adaptor", isOne(x, "hookPanics"), x, "ServeHTTP panics although the hook did not")
		}
		e.ob("H01", "a status is always sent", isOne(x, "sent"), x, "the request ends without a status")
		e.ob("H01", "the handler is called once with the request", isOne(x, "handled"), x, "Handle was called %s times", x.ShowVal(x.Ghost["handled"]))
		if isOne(x, "need500") {
			e.ob("H01", "500 is sent when nothing else was", x.Num.Eq(G(x, "status"), k(500)), x, "the status is %s although the request failed before a status was sent", x.ShowVal(x.Ghost["status"]))
		} else {
			e.ob("H01", "the response's status is sent", e.status != nil && x.Num.Eq(G(x, "status"), lin(e.status)), x, "the status is %s", x.ShowVal(x.Ghost["status"]))
		}
		b := bad(x)
		e.ob("H01", "the hook is called exactly if something failed", b > 0 && isOne(x, "hook") || b < 0 && isZero(x, "hook"), x, "OnPanic was called %s times", x.ShowVal(x.Ghost["hook"]))
		counted(x, "H02", "every metric is changed once")
		panicCount(x)
	}
	return in
}
