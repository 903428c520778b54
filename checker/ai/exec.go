package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Panic bool
	Val   Val // result (VStruct for several), or the panic value
}

// Hooks are the client's models and monitors.
type Hooks struct {
	// Call may model a statically known callee.
	Call func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool)
	// Invoke models a method call on an opaque receiver.
	Invoke func(in *Interp, st *State, recv *Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool)
	// CallOpaque models a call of an opaque function value.
	CallOpaque func(in *Interp, st *State, f *Term, sig *types.Signature, args []Val, pos token.Pos) ([]Outcome, bool)
	// Load and Store observe accesses to cells of objects; typ is the cell's type.
	Load  func(in *Interp, st *State, p VPtr, pos token.Pos)
	Store func(in *Interp, st *State, p VPtr, v Val, pos token.Pos)
	// MapAccess and ArrayAccess observe accesses to maps and array elements.
	MapAccess   func(in *Interp, st *State, m ObjID, key Val, write bool, pos token.Pos)
	ArrayAccess func(in *Interp, st *State, a ObjID, write bool, pos token.Pos)
	// Lock observes lock operations.
	Lock func(in *Interp, st *State, p VPtr, op string, pos token.Pos)
	// GenericKey makes an arbitrary unlisted key (and value) of an open map.
	GenericKey func(in *Interp, st *State, m ObjID) []KV
	// RuntimePanic observes a possible run-time panic (after it was not excluded).
	RuntimePanic func(in *Interp, st *State, what string, pos token.Pos)
	// Global may give the value of a global variable.
	Global func(in *Interp, st *State, g *ssa.Global) (Val, bool)
}

// KV is a map element made up by GenericKey.
type KV struct {
	St   *State
	K, V Val
}

// Interp runs the abstract interpretation.
type Interp struct {
	Prog *ssa.Program
	Repo string // import path prefix of the code under analysis
	H    Hooks
	Fset *token.FileSet

	// NoWrap32 assumes that int32 arithmetic does not overflow.
	NoWrap32 bool

	Funcs    map[*ssa.Function]bool
	Stats    struct{ Instrs, Calls, Paths, Loops, Joins int }
	Problems map[string]int // constructs that could not be interpreted
	Unknowns map[string]int // calls about which nothing is known (treated as changing anything they reach)
	stack    []*ssa.Function
	info     map[*ssa.Function]*fnInfo
	Budget   int
	deadline int
	pkgInit  map[*ssa.Package]*State
	globMut  map[*ssa.Global]bool
	inInit   bool
}

// New makes an interpreter.
func New(prog *ssa.Program, repo string) *Interp {
	return &Interp{Prog: prog, Repo: repo, Fset: prog.Fset, Funcs: map[*ssa.Function]bool{}, Problems: map[string]int{}, Unknowns: map[string]int{},
		info: map[*ssa.Function]*fnInfo{}, Budget: 40_000_000}
}

// Problem records a construct which could not be interpreted.
func (in *Interp) Problem(pos token.Pos, f string, a ...interface{}) {
	in.Problems[in.Pos(pos)+": "+fmt.Sprintf(f, a...)]++
}

// Pos renders a position.
func (in *Interp) Pos(pos token.Pos) string {
	if pos == token.NoPos {
		return "-"
	}
	p := in.Fset.Position(pos)
	f := p.Filename
	if len(f) > 6 && f[:6] == "/repo/" {
		f = f[6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// Stack renders the current call stack, innermost first.
func (in *Interp) Stack() string {
	s := ""
	for i := len(in.stack) - 1; i >= 0; i-- {
		if s != "" {
			s += " <- "
		}
		s += in.stack[i].RelString(nil)
	}
	return s
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
	inv  *types.Func
}

type frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    map[ssa.Value]Val
	defers []deferRec
	st     *State
	// recoverTo: index of the panic record a recover() in this frame stops,
	// or -1
	recoverTo int
}

func (f *frame) clone() *frame {
	g := *f
	g.env = cpMap(f.env)
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	g.st = f.st.Clone()
	return &g
}

func (f *frame) with(st *State) *frame {
	if st == f.st {
		return f
	}
	g := *f
	g.env = cpMap(f.env)
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	g.st = st
	return &g
}

// ---- control-flow structure

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // by header
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	bad   bool
}

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := in.info[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	in.info[fn] = fi
	if len(fn.Blocks) == 0 {
		return fi
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	idx := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if idx[s] <= idx[b] {
				fi.bad = true // irreducible
			}
		}
	}
	// liveness
	fi.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		fi.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					cur[v] = true
				}
				pi := predIndex(s, b)
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					cur[phi.Edges[pi]] = true
					delete(cur, phi)
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for _, ins := range b.Instrs {
				if phi, ok := ins.(*ssa.Phi); ok {
					cur[phi] = true
				}
			}
			for v := range cur {
				if !fi.live[b][v] {
					fi.live[b][v] = true
					changed = true
				}
			}
		}
	}
	return fi
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

// TooHard is thrown when the analysis gives up.
type TooHard struct{ Why string }

const maxDepth = 40

// Call runs fn abstractly.
func (in *Interp) Call(st *State, fn *ssa.Function, args []Val, bind []Val, recoverTo int) []Outcome {
	in.Stats.Calls++
	if len(in.stack) > maxDepth {
		panic(TooHard{"call depth exceeded at " + fn.String()})
	}
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 {
		panic(TooHard{"recursion in " + fn.String()})
	}
	in.Funcs[fn] = true
	fr := &frame{fn: fn, info: in.fnInfo(fn), env: map[ssa.Value]Val{}, st: st, recoverTo: recoverTo}
	if fr.info.bad {
		panic(TooHard{"irreducible control flow in " + fn.String()})
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	outs, _, _ := in.region(fr.info, fn.Blocks[0], []*frame{fr}, nil)
	in.Stats.Paths += len(outs)
	return outs
}

type edgeFrame struct {
	to *ssa.BasicBlock
	fr *frame
}

// MaxDisj bounds the states kept apart at one point of a function.
var MaxDisj = 20000

// region runs the blocks of loop (or of the whole function) from entry.
func (in *Interp) region(fi *fnInfo, entry *ssa.BasicBlock, frs []*frame, loop *loopInfo) (outs []Outcome, exits, backs []edgeFrame) {
	pending := map[*ssa.BasicBlock][]*frame{entry: frs}
	put := func(e edgeFrame) {
		switch {
		case loop != nil && e.to == loop.header:
			backs = append(backs, e)
		case loop != nil && !loop.blocks[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e.fr)
		}
	}
	for _, b := range fi.rpo {
		fs := pending[b]
		if len(fs) == 0 {
			continue
		}
		delete(pending, b)
		if len(fs) > MaxDisj {
			panic(TooHard{fmt.Sprintf("more than %d disjuncts in %s", MaxDisj, fs[0].fn)})
		}
		if l := fi.loops[b]; l != nil && (loop == nil || b != loop.header) {
			o, ex := in.runLoop(fi, l, fs)
			outs = append(outs, o...)
			for _, e := range ex {
				put(e)
			}
			continue
		}
		for _, fr := range fs {
			es, o := in.block(fr, b)
			outs = append(outs, o...)
			for _, e := range es {
				put(e)
			}
		}
	}
	return
}

// block runs one basic block.
func (in *Interp) block(fr *frame, b *ssa.BasicBlock) (es []edgeFrame, outs []Outcome) {
	type item struct {
		fr *frame
		i  int
	}
	work := []item{{fr, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		fr, i := it.fr, it.i
	instrs:
		for ; i < len(b.Instrs); i++ {
			if fr.st.Bad() {
				break
			}
			in.Stats.Instrs++
			if in.Budget--; in.Budget < 0 {
				panic(TooHard{"instruction budget exhausted"})
			}
			switch ins := b.Instrs[i].(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump:
				es = append(es, in.edge(fr, b, b.Succs[0]))
				break instrs
			case *ssa.If:
				f := in.boolOf(fr, ins.Cond)
				switch fr.st.Decide(f) {
				case 1:
					es = append(es, in.edge(fr, b, b.Succs[0]))
				case -1:
					es = append(es, in.edge(fr, b, b.Succs[1]))
				default:
					g := fr.clone()
					for _, s := range fr.st.Assume(f, true) {
						s.Note(condPos(ins), "true: "+in.src(ins.Cond))
						es = append(es, in.edge(fr.with(s), b, b.Succs[0]))
					}
					for _, s := range g.st.Assume(f, false) {
						s.Note(condPos(ins), "false: "+in.src(ins.Cond))
						es = append(es, in.edge(g.with(s), b, b.Succs[1]))
					}
				}
				break instrs
			case *ssa.Return:
				var v Val
				if len(ins.Results) == 1 {
					v = in.val(fr, ins.Results[0])
				} else {
					t := VStruct{}
					for _, r := range ins.Results {
						t.F = append(t.F, in.val(fr, r))
					}
					v = t
				}
				outs = append(outs, Outcome{St: fr.st, Val: v})
				break instrs
			case *ssa.Panic:
				v := in.val(fr, ins.X)
				outs = append(outs, in.unwind(fr, v, ins.Pos())...)
				break instrs
			case *ssa.RunDefers:
				// panics of the deferred calls end the function
				var frs []*frame
				for _, e := range in.runDefers(fr) {
					switch {
					case e.Panic:
						outs = append(outs, Outcome{St: e.fr.st, Panic: true, Val: e.val})
					case e.ret:
						outs = append(outs, Outcome{St: e.fr.st, Val: e.val})
					case !e.fr.st.Bad():
						frs = append(frs, e.fr)
					}
				}
				if len(frs) == 0 {
					break instrs
				}
				for _, g := range frs[1:] {
					work = append(work, item{g, i + 1})
				}
				fr = frs[0]
			default:
				frs, po := in.step(fr, ins)
				for _, p := range po {
					outs = append(outs, in.unwind(fr.with(p.St), p.Val, ins.Pos())...)
				}
				if len(frs) == 0 {
					break instrs
				}
				for _, g := range frs[1:] {
					work = append(work, item{g, i + 1})
				}
				fr = frs[0]
			}
		}
	}
	return
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p != token.NoPos {
		return p
	}
	return i.Pos()
}

func (in *Interp) src(v ssa.Value) string { return v.String() }

// edge evaluates the phis of to for a transfer from b.
func (in *Interp) edge(fr *frame, b, to *ssa.BasicBlock) edgeFrame {
	pi := predIndex(to, b)
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, in.val(fr, phi.Edges[pi]))
	}
	if len(phis) > 0 {
		fr = &frame{fn: fr.fn, info: fr.info, env: cpMap(fr.env), defers: fr.defers, st: fr.st, recoverTo: fr.recoverTo}
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	return edgeFrame{to, fr}
}

// unwind runs the deferred calls of fr after a panic with value v.
func (in *Interp) unwind(fr *frame, v Val, pos token.Pos) []Outcome {
	if fr.st.Bad() {
		return nil
	}
	if len(fr.defers) == 0 {
		return []Outcome{{St: fr.st, Panic: true, Val: v}}
	}
	fr = fr.clone()
	fr.st.Panics = append(fr.st.Panics, PanicRec{V: v})
	idx := len(fr.st.Panics) - 1
	return in.runDefersPanicking(fr, idx)
}

func (in *Interp) runDefersPanicking(fr *frame, idx int) []Outcome {
	var outs []Outcome
	cur := []*frame{fr}
	for len(cur) > 0 {
		f := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		p := f.st.Panics[idx]
		if p.Recovered {
			f.st.Panics = f.st.Panics[:idx:idx]
			// run the remaining deferred calls normally, then return
			for _, r := range in.runDefers(f) {
				if r.Panic {
					outs = append(outs, Outcome{St: r.fr.st, Panic: true, Val: r.val})
					continue
				}
				outs = append(outs, in.recovered(r.fr)...)
			}
			continue
		}
		if len(f.defers) == 0 {
			f.st.Panics = f.st.Panics[:idx:idx]
			outs = append(outs, Outcome{St: f.st, Panic: true, Val: p.V})
			continue
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		for _, o := range in.callDeferred(f, d, idx) {
			g := f.with(o.St)
			if o.Panic {
				// replaces the panic in progress
				g = g.clone()
				ps := append([]PanicRec(nil), g.st.Panics[:idx]...)
				g.st.Panics = append(ps, PanicRec{V: o.Val})
			}
			cur = append(cur, g)
		}
	}
	return outs
}

// recovered makes the outcome of a function that recovered.
func (in *Interp) recovered(fr *frame) []Outcome {
	if fr.fn.Recover == nil {
		res := fr.fn.Signature.Results()
		var v Val
		if res.Len() == 1 {
			v = Zero(res.At(0).Type())
		} else {
			v = Zero(res)
		}
		return []Outcome{{St: fr.st, Val: v}}
	}
	var outs []Outcome
	es, o := in.block(fr, fr.fn.Recover)
	outs = append(outs, o...)
	if len(es) > 0 {
		panic(TooHard{"control flow in recover block of " + fr.fn.String()})
	}
	return outs
}

type deferEnd struct {
	ret   bool
	fr    *frame
	Panic bool
	val   Val
}

// runDefers runs all deferred calls in normal mode.
func (in *Interp) runDefers(fr *frame) []deferEnd {
	if len(fr.defers) == 0 {
		return []deferEnd{{fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	var ends []deferEnd
	for _, o := range in.callDeferred(fr, d, -1) {
		g := fr.with(o.St)
		if o.Panic {
			g = g.clone()
			g.st.Panics = append(g.st.Panics, PanicRec{V: o.Val})
			for _, r := range in.runDefersPanicking(g, len(g.st.Panics)-1) {
				if r.Panic {
					ends = append(ends, deferEnd{fr: g.with(r.St), Panic: true, val: r.Val})
				} else {
					// recovered during deferred calls: the results were set
					ends = append(ends, deferEnd{fr: g.with(r.St), ret: true, val: r.Val})
				}
			}
			continue
		}
		ends = append(ends, in.runDefers(g)...)
	}
	return ends
}

func (in *Interp) callDeferred(fr *frame, d deferRec, idx int) []Outcome {
	return in.callValue(fr, d.fn, d.inv, d.args, d.call.Signature(), d.pos, idx, d.call)
}

// runLoop computes the fixpoint of a loop.
func (in *Interp) runLoop(fi *fnInfo, l *loopInfo, frs []*frame) (outs []Outcome, exits []edgeFrame) {
	in.Stats.Loops++
	if len(frs) > 1 && len(frs) <= 64 {
		for _, fr := range frs {
			o, e := in.runLoop(fi, l, []*frame{fr})
			outs = append(outs, o...)
			exits = append(exits, e...)
		}
		return
	}
	lp := newLoopTable(in, fi, l)
	for _, fr := range frs {
		lp.add(fr, true)
	}
	for {
		e := lp.next()
		if e == nil {
			break
		}
		e.runs++
		if e.runs > 60 {
			panic(TooHard{"loop does not stabilise in " + frs[0].fn.String()})
		}
		o, ex, backs := in.region(fi, l.header, []*frame{e.fr.clone()}, l)
		e.outs, e.exits = o, ex
		for _, b := range backs {
			lp.add(b.fr, false)
		}
	}
	for _, e := range lp.entries {
		outs = append(outs, e.outs...)
		exits = append(exits, e.exits...)
	}
	return
}

// ---- evaluation helpers

func (in *Interp) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(fr.st, x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Global:
		return VPtr{Obj: in.globalObj(fr.st, x)}
	case *ssa.Builtin:
		return VBad{"builtin"}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(TooHard{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
	}
	return fr.st.Canon(r)
}

func (in *Interp) boolOf(fr *frame, v ssa.Value) *Form {
	switch x := in.val(fr, v).(type) {
	case VBool:
		return x.F
	}
	return Atom(FreshTerm("cond", nil))
}

func sortedFuncs(m map[*ssa.Function]bool) []string {
	var out []string
	for f := range m {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

// FuncNames lists the functions interpreted.
func (in *Interp) FuncNames() []string { return sortedFuncs(in.Funcs) }
