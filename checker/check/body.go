package check

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// The client of the bodies.  A configuration says how a body is made: from
// bytes, from a string, or from an arbitrary reader whose content and
// capabilities are unknown.  The abstract states ("views") of one body x
// together with everything it shares with its copies are closed under all
// operations on x and on the other bodies that share it; every operation is
// checked from every view.
//
// Ghost state of a body: x.P (its position: how many bytes of the content lie
// before it), x.beyond (a Seek put it beyond the last byte the source has),
// x.sticky (the error Read keeps returning), x.closed.
// Ghost state of the shared part: G (open bodies), srcClosed, cur (cursor of
// the source), ended (0: the source has not ended, 1: it reported io.EOF, 2: it
// failed), endPos, srcErr (that error).
// Symbols: L0 (declared or measured length, if known), A (bytes the source
// really has), Lg (where the content ends: the lesser of both).
type bodyClient struct {
	p   *Program
	r   *Report
	in  *ai.Interp
	cfg *bodyConfig

	bodyT, readerT, writerT, seekerT, readerAtT, closerT, fileT, writerToT, fileInfoT types.Type

	src, fi, dst *ai.Term
	content      *ai.Term
	L0, Lg, A    num.Lin
	known        bool // L0 is known
	table        *ai.Table
	op           string
	where        string
	label        string // property to which observations are attributed
	log          *concLog
	buffered     bool // the operation is on a body that keeps what it read from a stream
	observing    bool
	labelRule    string
	paths        map[string]map[string]bool // shared paths by type

	conc *concState
}

type bodyConfig struct {
	name  string
	kind  string // "bytes", "string", "empty", "closed", "reader"
	mode  string // readers: "exact", "short", "unknown"
	caps  string // readers: "at" has ReadAt; "seek" has Seek, not ReadAt; "stream" has neither
	props map[string]bool
}

var envPanic = ai.MkTerm("sentinel", "panic of the environment", nil)

const bodyOps = "Copy BytesRemaining Read Close Unwrap Seek ReadAt WriteTo"

func (p *Program) newBodyClient(r *Report, in *ai.Interp, cfg *bodyConfig) *bodyClient {
	c := &bodyClient{p: p, r: r, in: in, cfg: cfg, paths: map[string]map[string]bool{}}
	c.bodyT = p.Type("body", "Body")
	c.readerT = p.Std("io", "Reader")
	c.writerT = p.Std("io", "Writer")
	c.seekerT = p.Std("io", "Seeker")
	c.readerAtT = p.Std("io", "ReaderAt")
	c.closerT = p.Std("io", "Closer")
	c.writerToT = p.Std("io", "WriterTo")
	c.fileT = p.Std("io/fs", "File")
	c.fileInfoT = p.Std("io/fs", "FileInfo")
	return c
}

// ob records an obligation of the operation under analysis.
func (c *bodyClient) ob(st *State, prop, rule string, good bool, f string, a ...interface{}) bool {
	if c.observing {
		for _, l := range strings.Fields(c.label) {
			c.r.Ob(c.in, l, c.labelRule, c.cfg.name+": "+c.where, good, st, "["+prop+": "+rule+"] "+f, a...)
		}
		return good
	}
	return c.r.Ob(c.in, prop, rule, c.cfg.name+": "+c.where, good, st, f, a...)
}

// ---- environment

// env makes the state before construction.
func (c *bodyClient) env() *State {
	st := ai.NewState()
	n := c.cfg.name
	c.src = ai.Named("source of "+n, c.readerT)
	c.fi = ai.Named("file info of "+n, c.fileInfoT)
	c.dst = ai.Named("destination of "+n, c.writerT)
	for _, t := range []*ai.Term{c.src, c.fi, c.dst} {
		st.Facts[ai.IsNilAtom(t)] = false
	}
	switch c.cfg.kind {
	case "bytes":
		t := ai.Named("data of "+n, types.NewSlice(types.Typ[types.Byte]))
		s := st.ValOf(t, types.NewSlice(types.Typ[types.Byte])).(ai.VSlice)
		c.content = ai.MkTerm("content", "", []*ai.Term{t})
		c.A, c.L0, c.Lg, c.known = s.Len, s.Len, s.Len, true
	case "string":
		t := ai.Named("data of "+n, types.Typ[types.String])
		l := st.LenOf(t)
		c.content = ai.MkTerm("strcontent", "", []*ai.Term{t})
		c.A, c.L0, c.Lg, c.known = l, l, l, true
	case "empty", "closed":
		c.content = ai.Named("content of "+n, nil)
		c.A, c.L0, c.Lg, c.known = k(0), k(0), k(0), true
	case "reader":
		c.content = ai.Named("content of "+n, nil)
		has := func(t types.Type, yes bool) {
			ss := st.Assume(ai.Atom(ai.ImplAtom(c.src, t)), yes)
			if len(ss) != 1 {
				panic(ai.TooHard{Why: "capabilities"})
			}
			st = ss[0]
		}
		switch c.cfg.caps {
		case "at":
			has(c.readerAtT, true)
		case "seek":
			has(c.readerAtT, false)
			has(c.seekerT, true)
		case "stream":
			has(c.readerAtT, false)
			has(c.seekerT, false)
		}
		c.A = st.LenOf(c.content)
		switch c.cfg.mode {
		case "exact":
			c.L0 = st.FreshInt("L0", types.Typ[types.Int64])
			st.Num.AddLe(k(0), c.L0)
			st.Num.AddLe(c.L0, c.A)
			c.Lg, c.known = c.L0, true
		case "short":
			c.L0 = st.FreshInt("L0", types.Typ[types.Int64])
			st.Num.AddLe(c.A.AddK(1), c.L0)
			st.Num.AddLe(c.L0.Mul(4), num.Big)
			c.Lg, c.known = c.A, true
		case "unknown":
			c.L0, c.Lg, c.known = k(-1), c.A, false
		}
	}
	st.Num.AddLe(c.A.Mul(4), num.Big)
	st.Num.AddLe(c.L0.Mul(4), num.Big)
	st.Ghost["G"] = vint(k(0))
	st.Ghost["srcClosed"] = vbool(false)
	st.Ghost["cur"] = vint(k(0))
	st.Ghost["ended"] = vint(k(0))
	st.Ghost["endPos"] = vint(k(0))
	st.Ghost["srcErr"] = ai.VNil{}
	c.newBodyGhosts(st)
	return st
}

func (c *bodyClient) newBodyGhosts(st *State) {
	st.Ghost["x.P"] = vint(k(0))
	st.Ghost["x.beyond"] = vbool(false)
	st.Ghost["x.sticky"] = ai.VNil{}
	st.Ghost["x.closed"] = vbool(false)
}

// opGhosts are the ghosts which describe one operation.
var opGhosts = []string{"op.serves", "op.base", "op.k", "op.srcErr", "op.reads", "op.closes", "op.closeErr", "op.src", "op.dst", "op.dstErr", "op.env", "op.isClose", "op.stat", "op.seekErr", "op.measured"}

func (c *bodyClient) resetOp(st *State) {
	st.Ghost["op.serves"] = vbool(false) // op.base says which position is served
	st.Ghost["op.base"] = vint(k(0))
	st.Ghost["op.k"] = vint(k(0))      // bytes read from the source
	st.Ghost["op.srcErr"] = ai.VNil{}  // error of the source (io.EOF included)
	st.Ghost["op.reads"] = vint(k(0))  // Read or ReadAt calls of the source (0, 1: some)
	st.Ghost["op.closes"] = vint(k(0)) // Close calls of the source
	st.Ghost["op.closeErr"] = ai.VNil{}
	st.Ghost["op.src"] = vbool(false) // the source was used
	st.Ghost["op.dst"] = vint(k(0))   // bytes the destination accepted
	st.Ghost["op.dstErr"] = ai.VNil{}
	st.Ghost["op.env"] = vbool(false) // the environment panicked
	st.Ghost["op.isClose"] = vbool(false)
	st.Ghost["op.stat"] = vbool(false)
	st.Ghost["op.measured"] = vbool(false) // the length was asked for and given
	st.Ghost["op.seekErr"] = ai.VNil{}
}

func (c *bodyClient) dropOp(st *State) {
	for _, g := range opGhosts {
		delete(st.Ghost, g)
	}
	for g := range st.Ghost {
		if strings.HasPrefix(g, "T|") {
			delete(st.Ghost, g)
		}
	}
	dropStart(st)
}

func isTrue(st *State, g string) bool {
	b, is := st.Canon(st.Ghost[g]).(ai.VBool)
	return is && st.Decide(b.F) > 0
}

func isNilV(st *State, g string) bool { return st.IsNil(st.Ghost[g]) > 0 }

// otherErr makes an error that is not io.EOF.
func otherErr(st *State, name string) Val {
	v := st.NonNilErr(name)
	for _, f := range []string{} {
		_ = f
	}
	ss := st.Assume(st.EqForm(v, eofVal), false)
	if len(ss) == 0 {
		panic(ai.TooHard{Why: "fresh error"})
	}
	*st = *ss[0]
	return v
}

func (c *bodyClient) invoke(in *ai.Interp, st *State, recv *ai.Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	switch recv {
	case st.Find(c.src):
		return c.srcCall(st, m, args, pos)
	case st.Find(c.dst):
		return c.dstCall(st, m, args, pos)
	case st.Find(c.fi):
		if m.Name() == "Size" && c.known {
			return []Outcome{ok(st, vint(c.L0))}, true
		}
		if m.Name() == "Size" {
			return nil, true // unknown length: there is no size
		}
	}
	return nil, false
}

func sliceArg(v Val) ai.VSlice {
	switch v := v.(type) {
	case ai.VSlice:
		return v
	case ai.VNil:
		return ai.VSlice{Nil: ai.B(true)}
	}
	panic(ai.TooHard{Why: "slice argument"})
}

// scribble forgets the contents of p[lo:hi].
func scribble(st *State, p ai.VSlice, lo, hi num.Lin) {
	if p.Arr != 0 {
		st.SetRange(p.Arr, p.Off.Add(lo), p.Off.Add(hi), nil, num.Lin{}, nil)
	}
}

// fill says that p[0:n] now holds the content from position q on.
func (c *bodyClient) fill(st *State, p ai.VSlice, n, q num.Lin) {
	if p.Arr != 0 {
		st.SetRange(p.Arr, p.Off, p.Off.Add(n), c.content, q.Sub(p.Off), nil)
	}
}

// srcCall is a call of a method of the source.
func (c *bodyClient) srcCall(st *State, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	st.Note(pos, "source: "+m.Name())
	site := "source." + m.Name()
	c.sourceUse(st, m.Name(), pos)
	st.Ghost["op.src"] = vbool(true)
	c.ob(st, "B04", "the source is not used after it was closed", !c.maybe(st, "srcClosed"), "%s is called after the source was closed", site)
	if c.op == "construct" {
		c.ob(st, "B17", "construction neither reads nor closes the reader", m.Name() != "Read" && m.Name() != "ReadAt" && m.Name() != "Close", "%s is called by the constructor", site)
	} else {
		c.ob(st, "B03", "a closed body does not touch the source", !c.maybe(st, "x.closed"), "%s is called by an operation on a closed body", site)
	}
	var outs []Outcome
	pn := st.Clone()
	pn.Ghost["op.env"] = vbool(true)
	pn.Note(pos, "the source panics")
	outs = append(outs, panicking(pn, ref(envPanic)))
	switch m.Name() {
	case "Read":
		p := sliceArg(args[0])
		q := G(st, "cur")
		c.readObligations(st, p, q, site)
		st.Ghost["op.reads"] = vint(k(1))
		for _, o := range c.readOutcomes(st, p, q, false) {
			o.St.Ghost["cur"] = vint(o.St.Num.Norm(q.Add(lin(tup(o.Val, 0)))))
			outs = append(outs, o)
		}
		return outs, true
	case "ReadAt":
		p := sliceArg(args[0])
		q := lin(args[1])
		c.readObligations(st, p, q, site)
		st.Ghost["op.reads"] = vint(k(1))
		return append(outs, c.readOutcomes(st, p, q, true)...), true
	case "Seek":
		off, wh := lin(args[0]), lin(args[1])
		type tgt struct {
			st  *State
			l   num.Lin
			end bool
		}
		var ts []tgt
		for i, base := range []num.Lin{k(0), G(st, "cur"), c.L0} {
			b := st.Clone()
			b.Num.AddEq(wh, k(int64(i)))
			if !b.Num.Feasible() {
				continue
			}
			if i == 2 && !c.known {
				continue // a source with an end is of known length
			}
			ts = append(ts, tgt{b, base.Add(off), i == 2})
		}
		for _, t := range ts {
			bad := t.st.Clone()
			e := otherErr(bad, "seekErr")
			bad.Ghost["cur"] = vint(bad.FreshInt("cursor", types.Typ[types.Int64]))
			bad.Ghost["op.srcErr"], bad.Ghost["op.seekErr"] = e, e
			bad.Note(pos, "source.Seek fails")
			outs = append(outs, ok(bad, ai.Tup(vint(bad.FreshInt("seekResult", types.Typ[types.Int64])), e)))
			t.st.Num.AddLe(k(0), t.l)
			if t.st.Num.Feasible() {
				if t.end {
					t.st.Ghost["op.measured"] = vbool(true)
				}
				t.st.Ghost["cur"] = vint(t.st.Num.Norm(t.l))
				outs = append(outs, ok(t.st, ai.Tup(vint(t.l), ai.VNil{})))
			}
		}
		return outs, true
	case "Close":
		c.ob(st, "B04", "only Close closes the source", c.op == "Close", "%s closes the source", c.op)
		c.ob(st, "B04", "the source is closed by the last open body", st.Num.Eq(G(st, "G"), k(1)), "the source is closed while other bodies are open")
		c.ob(st, "B04", "the source is closed once", !c.maybe(st, "srcClosed"), "the source is closed twice")
		st.Ghost["srcClosed"] = vbool(true)
		st.Ghost["op.closes"] = vint(k(1))
		for _, e := range errCases(st, "closeErr") {
			e.st.Ghost["op.closeErr"] = e.err
			outs = append(outs, ok(e.st, e.err))
		}
		return outs, true
	case "Stat":
		st.Ghost["op.stat"] = vbool(true)
		bad := st.Clone()
		e := otherErr(bad, "statErr")
		bad.Ghost["op.srcErr"] = e
		outs = append(outs, ok(bad, ai.Tup(ai.VNil{}, e)))
		if c.known {
			st.Ghost["op.measured"] = vbool(true)
			outs = append(outs, ok(st, ai.Tup(ref(c.fi), ai.VNil{})))
		}
		return outs, true
	}
	return nil, false
}

// maybe tells whether the boolean ghost may be true.
func (c *bodyClient) maybe(st *State, g string) bool {
	b, is := st.Canon(st.Ghost[g]).(ai.VBool)
	return !is || st.Decide(b.F) >= 0
}

// readObligations checks where the source is read.
func (c *bodyClient) readObligations(st *State, p ai.VSlice, q num.Lin, site string) {
	if c.op == "construct" {
		return
	}
	if c.known {
		c.ob(st, "B14", "reads stay within the length", st.Num.Le(q.Add(p.Len), c.L0), "%s asks for bytes beyond the length of the body", site)
	}
	if isTrue(st, "op.serves") {
		c.ob(st, "B14", "the source is read at the position that is served", st.Num.Eq(q, G(st, "op.base").Add(G(st, "op.k"))), "%s reads at %s instead of the position that is served", site, q)
	}
}

// readOutcomes models Read (at the cursor) or ReadAt of a source that honours
// the io contracts, reading at position q.
func (c *bodyClient) readOutcomes(st *State, p ai.VSlice, q num.Lin, at bool) []Outcome {
	var outs []Outcome
	done := func(s *State, n num.Lin, e Val, kind int64) {
		if !s.Num.Feasible() {
			return
		}
		c.fill(s, p, n, q)
		scribble(s, p, n, p.Len)
		s.Ghost["op.k"] = vint(s.Num.Norm(G(s, "op.k").Add(n)))
		s.Ghost["op.srcErr"] = e
		if kind > 0 {
			s.Ghost["ended"] = vint(k(kind))
			s.Ghost["endPos"] = vint(s.Num.Norm(q.Add(n)))
			s.Ghost["srcErr"] = e
		}
		outs = append(outs, ok(s, ai.Tup(vint(n), e)))
	}
	// success
	s := st.Clone()
	n := s.FreshInt("got", types.Typ[types.Int])
	s.Num.AddLe(k(0), n)
	s.Num.AddLe(n, p.Len)
	s.Num.AddLe(q.Add(n), c.A)
	if at {
		s.Num.AddEq(n, p.Len)
	}
	done(s, n, ai.VNil{}, 0)
	// end of file, reaching the end
	s = st.Clone()
	n = s.FreshInt("got", types.Typ[types.Int])
	s.Num.AddLe(k(0), n)
	s.Num.AddLe(n, p.Len)
	s.Num.AddEq(q.Add(n), c.A)
	done(s, n, eofVal, 1)
	// end of file, asked beyond the end
	s = st.Clone()
	s.Num.AddLe(c.A.AddK(1), q)
	done(s, k(0), eofVal, 1)
	// failure
	s = st.Clone()
	n = s.FreshInt("got", types.Typ[types.Int])
	s.Num.AddLe(k(0), n)
	s.Num.AddLe(n, p.Len)
	s.Num.AddLe(q.Add(n), c.A)
	if s.Num.Feasible() {
		done(s, n, otherErr(s, "readErr"), 2)
	}
	s = st.Clone()
	s.Num.AddLe(c.A.AddK(1), q)
	if s.Num.Feasible() {
		done(s, k(0), otherErr(s, "readErr"), 2)
	}
	return outs
}

// dstCall is a call of a method of the destination of WriteTo.
func (c *bodyClient) dstCall(st *State, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	st.Note(pos, "destination: "+m.Name())
	if m.Name() != "Write" {
		return nil, false
	}
	p := sliceArg(args[0])
	at := G(st, "x.P").Add(G(st, "op.dst"))
	c.ob(st, "B03", "a closed body writes nothing", !c.maybe(st, "x.closed"), "a closed body writes to the destination")
	c.ob(st, "B12", "the destination is not used after it failed", isNilV(st, "op.dstErr"), "the destination is written to after it failed")
	c.ob(st, "B12", "the bytes written are the remaining content", c.holds(st, p, p.Len, at) && st.Num.Le(at.Add(p.Len), c.Lg), "the bytes handed to the destination are not the next bytes of the content")
	var outs []Outcome
	pn := st.Clone()
	pn.Ghost["op.env"] = vbool(true)
	outs = append(outs, panicking(pn, ref(envPanic)))
	for _, e := range errCases(st, "writeErr") {
		n := e.st.FreshInt("written", types.Typ[types.Int])
		e.st.Num.AddLe(k(0), n)
		e.st.Num.AddLe(n, p.Len)
		if e.nil {
			e.st.Num.AddEq(n, p.Len)
		}
		e.st.Ghost["op.dst"] = vint(e.st.Num.Norm(G(e.st, "op.dst").Add(n)))
		e.st.Ghost["op.dstErr"] = e.err
		outs = append(outs, ok(e.st, ai.Tup(vint(n), e.err)))
	}
	return outs, true
}

// holds tells whether p[0:n] is the content from position q on.
func (c *bodyClient) holds(st *State, p ai.VSlice, n, q num.Lin) bool {
	if st.Num.Le(n, k(0)) {
		return true
	}
	if p.Arr == 0 {
		return false
	}
	return st.Holds(p.Arr, p.Off, p.Off.Add(n), c.content, q.Sub(p.Off))
}

// ---- construction

type made struct {
	st       *State
	v        Val
	err      Val
	declared bool // the length was given
}

// construct runs the constructor of the configuration.
func (c *bodyClient) construct(st *State) []made {
	c.op = "construct"
	c.resetOp(st)
	call := func(st *State, name string, args ...Val) []made {
		c.where = "body." + name
		fn := c.p.Func("body", name)
		var ms []made
		for _, o := range c.in.Call(st, fn, args, nil, -1) {
			if o.Panic {
				if isTrue(o.St, "op.env") {
					c.locksFree(o.St, nil)
					continue
				}
				c.ob(o.St, "B13", "no panic", false, "%s panics: %s", c.where, o.St.ShowVal(o.Val))
				continue
			}
			m := made{st: o.St, v: tup(o.Val, 0), err: ai.VNil{}}
			if fn.Signature.Results().Len() == 2 {
				m.err = tup(o.Val, 1)
			}
			ms = append(ms, m)
		}
		c.ob(nil, "B13", "no panic", true, "")
		return ms
	}
	switch c.cfg.kind {
	case "bytes":
		return call(st, "FromBytes", st.ValOf(c.content.Args[0], c.content.Args[0].T))
	case "string":
		return call(st, "FromString", ref(c.content.Args[0]))
	case "empty":
		return call(st, "Empty")
	case "closed":
		return call(st, "AlreadyClosed")
	}
	// a reader that is a Body is returned as it is
	for _, s := range st.Clone().Assume(ai.Atom(ai.ImplAtom(c.src, c.bodyT)), true) {
		for _, m := range call(s, "FromReader", ref(c.src)) {
			c.ob(m.st, "B17", "a body is returned unchanged", m.st.Same(m.st.Canon(m.v), ref(c.src)) && m.st.IsNil(m.err) > 0 && !c.maybe(m.st, "op.src"), "FromReader of a Body returns %s, %s", m.st.ShowVal(m.v), m.st.ShowVal(m.err))
		}
	}
	// the reader is not a Body itself
	var ms []made
	for _, s := range st.Assume(ai.Atom(ai.ImplAtom(c.src, c.bodyT)), false) {
		for _, d := range []bool{true, false} {
			s := s.Clone()
			var arg num.Lin
			if d {
				if !c.known {
					continue
				}
				arg = c.L0
			} else {
				arg = s.FreshInt("length", types.Typ[types.Int64])
				s.Num.AddLe(arg, k(-1))
			}
			ns := call(s.Clone(), "FromReaderAndLength", ref(c.src), vint(arg))
			if !d {
				ns = append(ns, call(s.Clone(), "FromReader", ref(c.src))...)
			}
			for _, m := range ns {
				m.declared = d
				if c.known && !d && !isTrue(m.st, "op.measured") && m.st.IsNil(m.err) > 0 {
					// the length is not known after all
					can := false
					for _, t := range []types.Type{c.fileT, c.seekerT} {
						can = can || m.st.Decide(ai.Atom(ai.ImplAtom(c.src, t))) > 0
					}
					c.ob(m.st, "B17", "what can be measured is measured", !can, "the length of a file or seekable reader is not determined")
					continue
				}
				ms = append(ms, m)
			}
		}
	}
	return ms
}

// locksFree checks that no lock is held at the end of an operation.
func (c *bodyClient) locksFree(st *State, o *Outcome) {
	held := ""
	var ids []int
	for id := range st.Heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		ob := st.Heap[ai.ObjID(id)]
		for p, v := range ob.Cells {
			if l, is := v.(ai.VLock); is && l.Held {
				held = ob.Name + ai.FieldName(ob.Type, p)
			}
		}
	}
	c.ob(st, "B02", "no lock is held at the end", held == "", "%s is still locked when %s ends", held, c.where)
}

// forkVal splits st on whether v is nil, io.EOF or something else.
type errFork struct {
	st   *State
	kind int // 0 nil, 1 io.EOF, 2 other
}

func forkErr(st *State, v Val) []errFork {
	var out []errFork
	isNil, not := forkNil(st, v)
	for _, s := range isNil {
		out = append(out, errFork{s, 0})
	}
	for _, s := range not {
		f := s.EqForm(v, eofVal)
		b := s.Clone()
		for _, t := range s.Assume(f, true) {
			out = append(out, errFork{t, 1})
		}
		for _, t := range b.Assume(f, false) {
			out = append(out, errFork{t, 2})
		}
	}
	return out
}

// typeName names the dynamic type of a body.
func typeName(v Val) string {
	if i, is := v.(ai.VIface); is {
		return short(i.T)
	}
	return "?"
}

// key keeps views apart.
func (c *bodyClient) key(st *State, roots []Val) string {
	s := typeName(roots[0]) + ";" + constOf(st, "x.closed") + constOf(st, "x.beyond") + constOf(st, "ended") + constOf(st, "srcClosed")
	switch {
	case st.IsNil(st.Ghost["x.sticky"]) > 0:
		s += "nosticky"
	case st.Same(st.Ghost["x.sticky"], eofVal):
		s += "eof"
	default:
		s += "err"
	}
	for _, l := range c.slicesOf(st, roots[0]) {
		if st.Num.Eq(l, k(0)) {
			s += ";empty"
		} else {
			s += ";some"
		}
	}
	return s
}

// slicesOf lists the lengths of the slices that v leads to.
func (c *bodyClient) slicesOf(st *State, v Val) []num.Lin {
	var out []num.Lin
	seen := map[ai.ObjID]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := st.Canon(v).(type) {
		case ai.VPtr:
			o := st.Heap[x.Obj]
			if x.Obj <= c.table.Mark.Obj || seen[x.Obj] || o == nil || o.Kind != "cells" {
				return
			}
			seen[x.Obj] = true
			for _, f := range ai.Leaves(o.Type, "") {
				walk(st.Cell(o, f))
			}
		case ai.VSlice:
			if x.Arr != 0 {
				out = append(out, x.Len)
			}
		case ai.VIface:
			walk(x.V)
		case ai.VStruct:
			for _, f := range x.F {
				walk(f)
			}
		}
	}
	walk(v)
	return out
}

// add adds a view of body v.
func (c *bodyClient) add(st *State, v Val, label string) bool {
	if t := os.Getenv("BODYTYPE"); t != "" && !strings.Contains(typeName(v), t) {
		return false
	}
	st = st.Clone()
	c.dropOp(st)
	c.forgetOthers(st, v)
	any := false
	for _, e := range forkErr(st, st.Ghost["x.sticky"]) {
		if e.kind == 1 {
			e.st.Ghost["x.sticky"] = eofVal
		}
		if e.kind == 0 {
			e.st.Ghost["x.sticky"] = ai.VNil{}
		}
		// whether a buffer is empty is decided, so that what it holds need not
		// be described when there is nothing
		work := []*State{e.st}
		for i := range c.slicesOf(e.st, v) {
			var nx []*State
			for _, s := range work {
				t := s.Clone()
				s.Num.AddEq(c.slicesOf(s, v)[i], k(0))
				t.Num.AddLe(k(1), c.slicesOf(t, v)[i])
				for _, u := range []*State{s, t} {
					if u.Num.Feasible() {
						nx = append(nx, u)
					}
				}
			}
			work = nx
		}
		for _, s := range work {
			if c.table.Add(s, []Val{v}, label) {
				any = true
			}
		}
	}
	return any
}

// forgetOthers drops what maps say about bodies other than v.
func (c *bodyClient) forgetOthers(st *State, v Val) {
	xp, is := v.(ai.VIface).V.(ai.VPtr)
	if !is {
		return
	}
	for id, o := range st.Heap {
		if o.Kind == "map" && id > c.table.Mark.Obj {
			if _, ptr := o.Type.Underlying().(*types.Map).Key().Underlying().(*types.Pointer); ptr {
				st.KeepEntries(id, func(k Val) bool { p, is := k.(ai.VPtr); return is && p.Obj == xp.Obj })
			}
		}
	}
}

// result is what an operation left.
type result struct {
	st   *State
	val  Val
	copy Val // Copy: the new body
	skip bool
}

// methodsOf lists the operations a body has.
func (c *bodyClient) methodsOf(v Val) []string {
	i, is := v.(ai.VIface)
	if !is {
		panic(ai.TooHard{Why: "a body of unknown type"})
	}
	var out []string
	ms := c.p.Methods(i.T)
	known := map[string]bool{}
	for _, n := range strings.Fields(bodyOps) {
		known[n] = true
		if ms[n] != nil {
			out = append(out, n)
		}
	}
	var extra []string
	for n := range ms {
		if !known[n] {
			extra = append(extra, n)
		}
	}
	sort.Strings(extra)
	return append(out, extra...)
}

// call calls method name of body v.
func (c *bodyClient) call(st *State, v Val, name string, args ...Val) []Outcome {
	fn, recv := c.p.methodOf(v, name)
	if fn == nil {
		panic(ai.TooHard{Why: "method " + name})
	}
	c.where = fnName(fn)
	c.op = name
	return c.in.Call(st, fn, append(recv, args...), nil, -1)
}

// run runs one operation on body v in state st, checks it and returns what it
// left, with the ghosts updated.
func (c *bodyClient) run(st0 *State, v Val, op string) []result {
	var rs []result
	for _, st := range c.prepare(st0.Clone(), v, op) {
		rs = append(rs, c.runOp(st, v, op)...)
	}
	return rs
}

// prepare forks on what the operation's obligations depend on.
func (c *bodyClient) prepare(st *State, v Val, op string) []*State { return []*State{st} }

func (c *bodyClient) runOp(st *State, v Val, op string) []result {
	c.resetOp(st)
	pre := st.Clone()
	_ = pre
	closed := isTrue(st, "x.closed")
	beyond := isTrue(st, "x.beyond")
	P := G(st, "x.P")
	var args []Val
	var p ai.VSlice
	var off, whence num.Lin
	fn, _ := c.p.methodOf(v, op)
	switch op {
	case "Read", "ReadAt":
		p = bytesArg(st, "p")
		st.Num.AddLe(p.Len.Mul(4), num.Big)
		args = append(args, p)
		if op == "ReadAt" {
			off = st.FreshInt("offset", types.Typ[types.Int64])
			args = append(args, vint(off))
		}
		if !closed && !(beyond && op == "Read") && Impl(v.(ai.VIface).T, c.seekerT) {
			st.Ghost["op.serves"] = vbool(true)
			if op == "Read" {
				st.Ghost["op.base"] = vint(P)
			} else {
				st.Ghost["op.base"] = vint(off)
			}
		}
	case "Seek":
		off = st.FreshInt("offset", types.Typ[types.Int64])
		whence = st.FreshInt("whence", types.Typ[types.Int])
		st.Num.AddLe(off, num.Big)
		args = append(args, vint(off), vint(whence))
	case "WriteTo":
		args = append(args, ref(c.dst))
	case "BytesRemaining", "Close", "Copy", "Unwrap":
	default: // a method this client knows nothing about
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			args = append(args, genericArg(st, "arg", fn.Signature.Params().At(i).Type()))
		}
	}
	c.buffered = c.cfg.kind == "reader" && !Impl(v.(ai.VIface).T, c.readerAtT)
	c.begin(st, v, op)
	if !c.observing {
		c.startLog(st, v, op)
	}
	outs := c.call(st, v, op, args...)
	c.stopLog(op, outs)
	c.ob(nil, "B13", "no panic", true, "")
	c.ob(nil, "B02", "no lock is held at the end", true, "")
	var rs []result
	for _, o := range outs {
		if !o.St.Num.Feasible() {
			continue
		}
		if o.Panic {
			if isTrue(o.St, "op.env") {
				c.locksFree(o.St, &o)
				continue
			}
			c.ob(o.St, "B13", "no panic", false, "%s panics: %s", c.where, o.St.ShowVal(o.Val))
			if c.buffered {
				c.ob(o.St, "B15", "every byte after the position is delivered", false, "%s panics: %s", c.where, o.St.ShowVal(o.Val))
			}
			continue
		}
		c.locksFree(o.St, &o)
		switch op {
		case "Read":
			rs = append(rs, c.afterRead(o, p, closed, beyond, P)...)
		case "ReadAt":
			rs = append(rs, c.afterReadAt(o, p, off, closed)...)
		case "Seek":
			rs = append(rs, c.afterSeek(o, v, off, whence, closed, beyond, P)...)
		case "WriteTo":
			rs = append(rs, c.afterWriteTo(o, closed, beyond, P)...)
		case "BytesRemaining":
			rs = append(rs, c.afterRemaining(o, closed, beyond, P)...)
		case "Close":
			rs = append(rs, c.afterClose(o, closed)...)
		case "Copy":
			rs = append(rs, c.afterCopy(o, v, closed)...)
		case "Unwrap":
			rs = append(rs, c.afterUnwrap(o, closed)...)
		default:
			rs = append(rs, result{st: o.St, val: o.Val})
		}
	}
	return rs
}

// inert checks the parts of B03 common to all operations on a closed body.
func (c *bodyClient) inert(st *State) {
	c.ob(st, "B03", "a closed body changes nothing", !isTrue(st, "op.src") && !c.maybe(st, "op.src"), "%s on a closed body uses the source", c.op)
}

func (c *bodyClient) closedErr(st *State, n Val, want int64, err Val) {
	c.inert(st)
	if n != nil {
		c.ob(st, "B03", "results of a closed body", st.Num.Eq(lin(n), k(want)), "%s on a closed body returns %s", c.op, st.ShowVal(n))
	}
	c.ob(st, "B03", "a closed body returns fs.ErrClosed", isStdErr(st, st.Canon(err), "io/fs.ErrClosed"), "%s on a closed body returns the error %s", c.op, st.ShowVal(err))
}

func (c *bodyClient) afterRead(o Outcome, p ai.VSlice, closed, beyond bool, P num.Lin) []result {
	n, err := lin(tup(o.Val, 0)), tup(o.Val, 1)
	if closed {
		c.closedErr(o.St, tup(o.Val, 0), 0, err)
		return []result{{st: o.St, val: o.Val}}
	}
	var rs []result
	for _, e := range forkErr(o.St, err) {
		st := e.st
		good := c.ob(st, "B07", "0 <= n <= len(p)", st.Num.Le(k(0), n) && st.Num.Le(n, p.Len), "Read returns n = %s for len(p) = %s", n, p.Len)
		if !good {
			st.Num.AddLe(k(0), n)
			st.Num.AddLe(n, p.Len)
		}
		if !isNilV(st, "x.sticky") {
			c.ob(st, "B09", "an error stays", e.kind != 0 && st.Same(err, st.Ghost["x.sticky"]) && st.Num.Eq(n, k(0)), "after %s, Read returns %s bytes and %s", st.ShowVal(st.Ghost["x.sticky"]), n, st.ShowVal(err))
		} else {
			if beyond {
				c.ob(st, "B07", "nothing beyond the end", st.Num.Eq(n, k(0)), "Read returns bytes beyond the end of the content")
			} else {
				right := c.holds(st, p, n, P)
				c.ob(st, "B07", "the bytes are the content at the position", right, "the bytes Read delivers are not the content from its position on")
				c.ob(st, "B07", "nothing beyond the end", st.Num.Le(P.Add(n), c.Lg), "Read returns bytes beyond the end of the content")
				if c.buffered {
					c.ob(st, "B15", "every byte after the position is delivered", right, "the bytes Read delivers are not those that follow the position")
				}
			}
			c.errObligations(st, e.kind, err, n, P, beyond, p.Len)
		}
		if e.kind != 0 {
			st.Ghost["x.sticky"] = err
		}
		if !beyond {
			st.Ghost["x.P"] = vint(st.Num.Norm(P.Add(n)))
		}
		rs = append(rs, result{st: st, val: o.Val})
	}
	return rs
}

// errObligations: which errors a Read or ReadAt at position P may return.
func (c *bodyClient) errObligations(st *State, kind int, err Val, n, P num.Lin, beyond bool, want num.Lin) {
	end := P.Add(n)
	opErr := st.Canon(st.Ghost["op.srcErr"])
	opKind := 0
	if st.IsNil(opErr) <= 0 {
		opKind = 2
		if st.Same(opErr, eofVal) {
			opKind = 1
		}
	}
	ended := st.Num.Norm(G(st, "ended"))
	failedHere := func() bool { // the source failed at the position reached
		return ended.Is(2) && st.Num.Eq(G(st, "endPos"), end)
	}
	switch kind {
	case 0:
		if opKind == 2 {
			// the failure may be ahead of the position (read ahead)
			c.ob(st, "B09", "failures of the source are returned", st.Num.Eq(n, want) && c.sequential(st), "the source failed and %s returns no error", c.op)
		}
	case 1:
		c.ob(st, "B09", "io.EOF only at the end", (beyond || st.Num.Le(c.Lg, end)) && opKind != 2, "%s reports io.EOF before the end of the content", c.op)
		c.ob(st, "B09", "a failure never looks like the end", !(c.sequential(st) && failedHere()) || opKind == 1, "the source failed at this position and %s reports io.EOF", c.op)
	case 2:
		c.ob(st, "B09", "errors are those of the source", (opKind == 2 && st.Same(err, opErr)) || (opKind == 0 && ended.Is(2) && st.Same(err, st.Ghost["srcErr"]) && st.Num.Eq(G(st, "endPos"), end)), "%s returns %s, which the source did not return", c.op, st.ShowVal(err))
	}
}

// sequential tells whether the body under analysis reads its source strictly
// forward.
func (c *bodyClient) sequential(st *State) bool { return !isTrue(st, "op.serves") }

func (c *bodyClient) afterReadAt(o Outcome, p ai.VSlice, off num.Lin, closed bool) []result {
	n, err := lin(tup(o.Val, 0)), tup(o.Val, 1)
	if closed {
		c.closedErr(o.St, tup(o.Val, 0), 0, err)
		return []result{{st: o.St, val: o.Val}}
	}
	var rs []result
	for _, e := range forkErr(o.St, err) {
		st := e.st
		neg := st.Clone()
		neg.Num.AddLe(off, k(-1))
		if neg.Num.Feasible() {
			c.ob(neg, "B11", "negative offsets are refused", neg.Num.Eq(n, k(0)) && e.kind == 2, "ReadAt at a negative offset returns %s bytes and %s", n, neg.ShowVal(err))
			rs = append(rs, result{st: neg, val: o.Val})
		}
		st.Num.AddLe(k(0), off)
		if !st.Num.Feasible() {
			continue
		}
		c.ob(st, "B11", "0 <= n <= len(p)", st.Num.Le(k(0), n) && st.Num.Le(n, p.Len), "ReadAt returns n = %s for len(p) = %s", n, p.Len)
		in := st.Clone()
		in.Num.AddLe(off, c.Lg)
		if in.Num.Feasible() {
			c.ob(in, "B11", "the bytes are the content at the offset", c.holds(in, p, n, off), "the bytes ReadAt delivers are not the content from the offset on")
			c.ob(in, "B11", "nothing beyond the end", in.Num.Le(off.Add(n), c.Lg), "ReadAt returns bytes beyond the end of the content")
			if e.kind == 0 {
				c.ob(in, "B11", "never silently short", in.Num.Eq(n, p.Len), "ReadAt returns %s of %s bytes and no error", n, p.Len)
			}
			if e.kind == 1 {
				c.ob(in, "B11", "io.EOF only at the end", in.Num.Le(c.Lg, off.Add(n)), "ReadAt reports io.EOF before the end of the content")
			}
			c.readAtErr(in, e.kind, err)
			rs = append(rs, result{st: in, val: o.Val})
		}
		st.Num.AddLe(c.Lg.AddK(1), off)
		if st.Num.Feasible() {
			c.ob(st, "B11", "nothing beyond the end", st.Num.Eq(n, k(0)), "ReadAt returns bytes beyond the end of the content")
			if e.kind == 0 {
				c.ob(st, "B11", "never silently short", st.Num.Eq(n, p.Len), "ReadAt returns %s of %s bytes and no error", n, p.Len)
			}
			c.readAtErr(st, e.kind, err)
			rs = append(rs, result{st: st, val: o.Val})
		}
	}
	return rs
}

func (c *bodyClient) readAtErr(st *State, kind int, err Val) {
	opErr := st.Canon(st.Ghost["op.srcErr"])
	failed := st.IsNil(opErr) <= 0 && !st.Same(opErr, eofVal)
	if failed {
		c.ob(st, "B09", "failures of the source are returned", kind == 2 && st.Same(err, opErr), "the source failed and ReadAt returns %s", st.ShowVal(err))
	} else {
		c.ob(st, "B09", "errors are those of the source", kind != 2, "ReadAt returns %s, which the source did not return", st.ShowVal(err))
	}
}

func (c *bodyClient) afterSeek(o Outcome, v Val, off, whence num.Lin, closed, beyond bool, P num.Lin) []result {
	r, err := lin(tup(o.Val, 0)), tup(o.Val, 1)
	if closed {
		c.closedErr(o.St, tup(o.Val, 0), -1, err)
		return []result{{st: o.St, val: o.Val}}
	}
	var rs []result
	type cse struct {
		st   *State
		kind int // 0..2 whence, 3 unknown
	}
	var cs []cse
	for i := int64(0); i <= 2; i++ {
		b := o.St.Clone()
		b.Num.AddEq(whence, k(i))
		cs = append(cs, cse{b, int(i)})
	}
	b := o.St.Clone()
	b.Num.AddLe(whence, k(-1))
	cs = append(cs, cse{b, 3})
	b = o.St.Clone()
	b.Num.AddLe(k(3), whence)
	cs = append(cs, cse{b, 3})
	refused := func(st *State, name string, val num.Lin, exact bool) {
		good := st.Num.Eq(r, k(-1))
		i, is := st.Canon(err).(ai.VIface)
		if is {
			is = short(i.T) == "body."+name
		}
		if is && exact {
			s, isS := i.V.(ai.VStruct)
			is = isS && len(s.F) > 0 && st.Num.Eq(lin(s.F[0]), val)
		}
		c.ob(st, "B10", "refused with "+name, good && is, "Seek returns %s, %s", r, st.ShowVal(err))
		rs = append(rs, result{st: st, val: o.Val})
	}
	for _, x := range cs {
		st := x.st
		if !st.Num.Feasible() {
			continue
		}
		if x.kind == 3 {
			refused(st, "UnknownWhenceSeekError", whence, true)
			continue
		}
		if x.kind == 0 {
			neg := st.Clone()
			neg.Num.AddLe(off, k(-1))
			if neg.Num.Feasible() {
				refused(neg, "NegativeStartOffsetSeekError", off, true)
			}
			st.Num.AddLe(k(0), off)
			if !st.Num.Feasible() {
				continue
			}
		}
		// where the end is, as the body sees it now
		for _, e := range c.ends(st, v, beyond, P) {
			st := e.st
			var t num.Lin
			switch x.kind {
			case 0:
				t = off
			case 1:
				t = P.Add(off)
			case 2:
				t = e.end.Add(off)
			}
			if !(x.kind == 1 && beyond) && !(x.kind == 2 && !e.exact) {
				neg := st.Clone()
				neg.Num.AddLe(t, k(-1))
				if neg.Num.Feasible() {
					refused(neg, "NegativeComputedOffsetSeekError", t, true)
				}
				st.Num.AddLe(k(0), t)
				if !st.Num.Feasible() {
					continue
				}
				in := st.Clone()
				in.Num.AddLe(t, e.end)
				if in.Num.Feasible() && (e.exact || st.Num.Le(t, c.Lg)) {
					c.ob(in, "B10", "the requested position is set", in.Num.Eq(r, t) && in.IsNil(err) > 0, "Seek to %s returns %s, %s", t, r, in.ShowVal(err))
					rs = append(rs, c.sought(in, o, r)...)
				}
				if e.exact {
					st.Num.AddLe(e.end.AddK(1), t)
					if st.Num.Feasible() {
						c.ob(st, "B10", "never beyond the end", st.Num.Eq(r, e.end) && st.IsNil(err) > 0, "Seek to %s returns %s, %s with the end at %s", t, r, st.ShowVal(err), e.end)
						rs = append(rs, c.sought(st, o, r)...)
					}
					continue
				}
			}
			// the position or the end is not known exactly
			isNil, not := forkNil(st, err)
			for _, s := range isNil {
				c.ob(s, "B10", "never beyond the end", s.Num.Le(k(0), r) && s.Num.Le(r, e.end), "Seek returns %s", r)
				rs = append(rs, c.sought(s, o, r)...)
			}
			for _, s := range not {
				refused(s, "NegativeComputedOffsetSeekError", k(0), false)
			}
		}
	}
	return rs
}

// sought sets the ghosts after a successful Seek to r.
func (c *bodyClient) sought(st *State, o Outcome, r num.Lin) []result {
	st = st.Clone()
	st.Ghost["x.sticky"] = ai.VNil{}
	st.Ghost["x.P"] = vint(st.Num.Norm(r))
	in := st.Clone()
	in.Num.AddLe(r, c.Lg)
	var rs []result
	if in.Num.Feasible() {
		in.Ghost["x.beyond"] = vbool(false)
		rs = append(rs, result{st: in, val: o.Val})
	}
	st.Num.AddLe(c.Lg.AddK(1), r)
	if st.Num.Feasible() {
		st.Ghost["x.beyond"] = vbool(true)
		rs = append(rs, result{st: st, val: o.Val})
	}
	return rs
}

type endCase struct {
	st    *State
	end   num.Lin
	exact bool
}

// ends says where a body that can seek sees its end: at L0 unless the source
// ended before.
func (c *bodyClient) ends(st *State, v Val, beyond bool, P num.Lin) []endCase {
	if st.Num.Norm(G(st, "ended")).Is(0) || st.Num.Eq(c.Lg, c.L0) {
		return []endCase{{st, c.L0, true}}
	}
	return []endCase{{st, c.L0, false}}
}

func (c *bodyClient) afterWriteTo(o Outcome, closed, beyond bool, P num.Lin) []result {
	n, err := tup(o.Val, 0), tup(o.Val, 1)
	if closed {
		c.closedErr(o.St, n, 0, err)
		return []result{{st: o.St, val: o.Val}}
	}
	st := o.St
	w := G(st, "op.dst")
	c.ob(st, "B12", "the count is what the destination accepted", st.Num.Eq(lin(n), w), "WriteTo returns %s, the destination accepted %s", lin(n), w)
	failed := !isNilV(st, "op.dstErr")
	if failed {
		c.ob(st, "B12", "the destination's error is returned", st.Same(err, st.Ghost["op.dstErr"]), "WriteTo returns %s instead of the destination's error", st.ShowVal(err))
	} else {
		c.ob(st, "B12", "no error of its own", st.IsNil(err) > 0 || (!isNilV(st, "op.srcErr") && st.Same(err, st.Ghost["op.srcErr"]) && !st.Same(err, eofVal)), "WriteTo returns %s although the destination accepted everything", st.ShowVal(err))
		if isNilV(st, "x.sticky") && st.IsNil(err) > 0 {
			c.ob(st, "B12", "everything that remains is written", beyond || st.Num.Eq(P.Add(w), c.Lg), "WriteTo returns nil before all bytes were written")
		}
	}
	if !beyond {
		st.Ghost["x.P"] = vint(st.Num.Norm(P.Add(w)))
	}
	return []result{{st: st, val: o.Val}}
}

func (c *bodyClient) afterRemaining(o Outcome, closed, beyond bool, P num.Lin) []result {
	st := o.St
	r := lin(o.Val)
	if closed {
		c.inert(st)
		c.ob(st, "B03", "results of a closed body", st.Num.Eq(r, k(0)), "BytesRemaining on a closed body is %s", r)
		return []result{{st: st, val: o.Val}}
	}
	ended := st.Num.Norm(G(st, "ended"))
	for _, s := range c.forkUnknown(st, r) {
		if s.Num.Eq(r, k(-1)) {
			c.ob(s, "B08", "unknown only if the length is unknown", !c.known && ended.Is(0), "BytesRemaining is -1 although the length is known")
			continue
		}
		c.ob(s, "B08", "never negative", s.Num.Le(k(0), r), "BytesRemaining is %s", r)
		if beyond {
			c.ob(s, "B08", "exact", s.Num.Le(r, c.L0), "BytesRemaining is %s", r)
			continue
		}
		if !c.known {
			if ended.Is(0) {
				c.ob(s, "B08", "exact", s.Num.Eq(r, c.Lg.Sub(P)), "BytesRemaining is %s before the source has ended", r)
			} else {
				c.ob(s, "B08", "exact", c.remainsEnded(s, r, P), "BytesRemaining is %s, the source ended at %s, the position is %s", r, G(s, "endPos"), P)
			}
			continue
		}
		exact := s.Num.Eq(r, c.L0.Sub(P))
		if !ended.Is(0) {
			exact = exact || c.remainsEnded(s, r, P)
		}
		c.ob(s, "B08", "exact", exact, "BytesRemaining is %s at position %s of %s", r, P, c.L0)
	}
	return []result{{st: st, val: o.Val}}
}

func (c *bodyClient) forkUnknown(st *State, r num.Lin) []*State {
	a, b := st.Clone(), st.Clone()
	a.Num.AddEq(r, k(-1))
	b.Num.AddLe(k(0), r)
	n := st.Clone()
	n.Num.AddLe(r, k(-2))
	var out []*State
	for _, s := range []*State{a, b, n} {
		if s.Num.Feasible() {
			out = append(out, s)
		}
	}
	return out
}

// remainsEnded: the source ended early; what remains is what lies before the
// end it has, or before the place where it failed.
func (c *bodyClient) remainsEnded(st *State, r, P num.Lin) bool {
	end := P.Add(r)
	return st.Num.Eq(end, G(st, "endPos")) || (st.Num.Le(c.Lg, end) && (!c.known || st.Num.Le(end, c.L0)))
}

func (c *bodyClient) afterClose(o Outcome, closed bool) []result {
	st := o.St
	err := o.Val
	if closed {
		c.closedErr(st, nil, 0, err)
		return []result{{st: st, val: o.Val}}
	}
	var rs []result
	last, more := st.Clone(), st.Clone()
	last.Num.AddEq(G(st, "G"), k(1))
	more.Num.AddLe(k(2), G(st, "G"))
	if more.Num.Feasible() {
		c.ob(more, "B04", "closing another copy returns nil", more.IsNil(err) > 0, "Close of a copy that is not the last returns %s", more.ShowVal(err))
		c.ob(more, "B04", "the source is closed by the last open body", isZero(more, "op.closes"), "the source is closed while other bodies are open")
	}
	if last.Num.Feasible() {
		if isZero(last, "op.closes") {
			f := ai.Atom(ai.ImplAtom(c.src, c.closerT))
			c.ob(last, "B04", "the last open body closes the source", c.cfg.kind != "reader" || last.Decide(f) < 0, "the last body is closed and the source is not")
			c.ob(last, "B04", "the error of closing the source is returned", last.IsNil(err) > 0, "Close returns %s without closing a source", last.ShowVal(err))
		} else {
			c.ob(last, "B04", "the error of closing the source is returned", last.Same(err, last.Ghost["op.closeErr"]), "Close returns %s instead of the error of closing the source", last.ShowVal(err))
		}
	}
	for _, s := range []*State{last, more} {
		if !s.Num.Feasible() {
			continue
		}
		s.Ghost["G"] = vint(s.Num.Norm(G(s, "G").AddK(-1)))
		c.newBodyGhosts(s)
		s.Ghost["x.closed"] = vbool(true)
		rs = append(rs, result{st: s, val: o.Val})
	}
	return rs
}

func (c *bodyClient) afterCopy(o Outcome, v Val, closed bool) []result {
	st := o.St
	y, err := st.Canon(tup(o.Val, 0)), st.Canon(tup(o.Val, 1))
	c.ob(st, "B05", "copying succeeds", st.IsNil(err) > 0, "Copy returns the error %s", st.ShowVal(err))
	yi, is := y.(ai.VIface)
	if !c.ob(st, "B05", "a copy is a body", is, "Copy returns %s", st.ShowVal(y)) {
		return []result{{st: st, val: o.Val}}
	}
	xi := v.(ai.VIface)
	for _, t := range []struct {
		n string
		t types.Type
	}{{"io.Seeker", c.seekerT}, {"io.ReaderAt", c.readerAtT}, {"io.WriterTo", c.writerToT}} {
		c.ob(st, "B06", "a copy keeps the advanced interfaces", !Impl(xi.T, t.t) || Impl(yi.T, t.t), "a copy of %s is %s, which does not implement %s", short(xi.T), short(yi.T), t.n)
	}
	xp, xIs := xi.V.(ai.VPtr)
	yp, yIs := yi.V.(ai.VPtr)
	if !closed {
		c.ob(st, "B05", "a copy is of the same kind", types.Identical(xi.T, yi.T), "a copy of %s is %s", short(xi.T), short(yi.T))
		c.ob(st, "B05", "a copy is another body", xIs && yIs && xp.Obj != yp.Obj, "Copy returns the body itself")
		st.Ghost["G"] = vint(st.Num.Norm(G(st, "G").AddK(1)))
	} else {
		c.inert(st)
	}
	return []result{{st: st, val: o.Val, copy: y}}
}

func (c *bodyClient) afterUnwrap(o Outcome, closed bool) []result {
	st := o.St
	if closed {
		c.inert(st)
		c.ob(st, "B03", "results of a closed body", st.IsNil(o.Val) > 0, "Unwrap of a closed body returns %s", st.ShowVal(o.Val))
	} else if c.cfg.kind == "reader" {
		c.ob(st, "B05", "every copy has the same source", st.Same(o.Val, ref(c.src)), "Unwrap returns %s", st.ShowVal(o.Val))
	} else {
		c.ob(st, "B05", "every copy has the same source", st.IsNil(o.Val) > 0, "Unwrap returns %s", st.ShowVal(o.Val))
	}
	return []result{{st: st, val: o.Val}}
}

var _ = fmt.Sprint
var _ *ssa.Function
