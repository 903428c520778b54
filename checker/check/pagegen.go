package check

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// genClient checks the generator that DefaultPageGenerator holds initially: it
// is called with an arbitrary code and location or error, and the strings it
// makes are compared symbolically.
type genClient struct {
	p    *Program
	r    *Report
	in   *ai.Interp
	op   string
	code num.Lin
	loc  *ai.Term
	key  Val
	st   *State
}

const givenName = "memory handed to the body"

func (c *builderClient) generator() {
	g := &genClient{p: c.p, r: c.r, in: c.in}
	g.in.H = c.p.NewInterp().H
	g.in.H.Call = g.call
	g.in.H.ArrayAccess = func(in *ai.Interp, st *State, a ai.ObjID, write bool, pos token.Pos) {
		if write {
			c.r.Ob(in, "R10", "a finished page is not changed", "page "+g.op, !g.isGiven(st, a), st, "the bytes of the page are changed after the body was made of them")
		}
	}
	for _, op := range []string{"GenerateRedirectPage", "GenerateErrorPage"} {
		g.op = op
		st := ai.NewState()
		v, ok := g.in.InitValueOf(st, c.p.Pkgs["response"].Var("DefaultPageGenerator"))
		if !ok {
			panic(Anchor{"the initial value of DefaultPageGenerator"})
		}
		m, recv := c.p.methodOf(v, op)
		if m == nil {
			panic(Anchor{"method " + op + " of the default page generator"})
		}
		st.Ghost["given"], st.Ghost["bodies"] = ai.VNil{}, vint(k(0))
		g.key = ref(ai.Named("someHeader", types.Typ[types.String]))
		st.Skolem = []Val{g.key}
		g.code = st.FreshInt("code", types.Typ[types.Int])
		st.Num.AddLe(k(200), g.code)
		st.Num.AddLe(g.code, k(999))
		var arg Val
		if op == "GenerateRedirectPage" {
			l := ai.MkTerm("pure", "strings.TrimSpace", []*ai.Term{ai.Named("location", types.Typ[types.String])})
			l.T = types.Typ[types.String]
			g.loc, arg = l, ref(l)
			st.Num.AddLe(st.LenOf(l).Mul(1000), num.Big)
			for _, f := range escapers {
				e := ai.MkTerm("pure", f, []*ai.Term{l})
				e.T = types.Typ[types.String]
				st.Num.AddLe(st.LenOf(e), st.LenOf(l).Mul(6))
			}
			st = st.Assume(st.EqForm(arg, ref(ai.StrConst(""))), false)[0]
		} else {
			e := ai.Named("error", types.Universe.Lookup("error").Type())
			st.Facts[ai.IsNilAtom(e)] = false
			arg = ref(e)
		}
		for _, o := range g.in.CallFn(st, m, append(recv, vint(g.code), arg), nil, noPos, -1) {
			g.result(o)
		}
	}
}

var escapers = []string{"html.EscapeString", "html/template.HTMLEscapeString", "text/template.HTMLEscapeString"}

func (g *genClient) ob(st *State, rule string, good bool, f string, a ...interface{}) bool {
	return g.r.Ob(g.in, "R10", rule, "page "+g.op, good, st, f, a...)
}

func (g *genClient) isGiven(st *State, a ai.ObjID) bool {
	s, is := st.Canon(st.Ghost["given"]).(ai.VSlice)
	return is && s.Arr == a
}

func (g *genClient) call(in *ai.Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	name := fn.String()
	switch name {
	case "(*sync.Pool).Put", "github.com/chronos-tachyon/bufferpool.Put":
		v := st.Canon(args[len(args)-1])
		if x, is := v.(ai.VIface); is {
			v = st.Canon(x.V)
		}
		bad := false
		switch x := v.(type) {
		case ai.VSlice:
			bad = g.isGiven(st, x.Arr)
		case ai.VPtr:
			if o := st.Heap[x.Obj]; o != nil && o.Kind == "cells" {
				for _, f := range ai.Leaves(o.Type, "") {
					if s, is := st.Canon(st.Cell(o, f)).(ai.VSlice); is {
						bad = bad || g.isGiven(st, s.Arr)
					}
				}
			}
		}
		g.ob(st, "a finished page is not changed", !bad, "the memory of the page is given back to a pool")
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "github.com/chronos-tachyon/bufferpool.Get":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return []Outcome{ok(st, ai.VPtr{Obj: st.NewCells(t, "buffer of the pool", pos)})}, true
	case Mod + "/body.FromBytes", Mod + "/body.FromString":
		st.Note(pos, "body."+fn.Name())
		if !isZero(st, "bodies") {
			panic(ai.TooHard{Why: "a page of several bodies"})
		}
		bump(st, "bodies")
		var text *ai.Term
		switch x := st.Canon(args[0]).(type) {
		case ai.VSlice:
			text = st.StringOfBytes(x)
			st.Ghost["given"] = x
			if x.Arr != 0 {
				g.ob(st, "a page has bytes of its own", st.Heap[x.Arr].Fresh, "the page is made of shared memory")
			}
		case ai.VNil:
			text = ai.StrConst("")
		case ai.VRef:
			text = st.Find(x.T)
		}
		st.Ghost["text"] = ref(text)
		t := ai.MkTerm("page", "", []*ai.Term{text})
		t.T = g.p.Type("body", "Body")
		st.Facts[ai.IsNilAtom(t)] = false
		return []Outcome{ok(st, ref(t))}, true
	}
	return nil, false
}

// parts takes a string apart.
func parts(st *State, t *ai.Term) []*ai.Term {
	t = st.Find(t)
	if t.Op == "cat" {
		var out []*ai.Term
		for _, a := range t.Args {
			out = append(out, parts(st, a)...)
		}
		return out
	}
	return []*ai.Term{t}
}

// ofCode tells whether t depends on nothing but the status code.
func (g *genClient) ofCode(st *State, t *ai.Term) bool {
	t = st.Find(t)
	switch t.Op {
	case "str", "bool":
		return true
	case "cat", "pure", "itoa", "fmt", "int", "fld", "canon", "substr", "strcontent", "len":
		for _, a := range t.Args {
			if !g.ofCode(st, a) {
				return false
			}
		}
		for _, l := range t.L {
			if !g.linOfCode(st, l) {
				return false
			}
		}
		return len(t.Args)+len(t.L) > 0
	}
	return false
}

func (g *genClient) linOfCode(st *State, l num.Lin) bool {
	l = st.Num.Norm(l)
	if l.IsConst() {
		return true
	}
	// a multiple of the code plus a constant
	for n := int64(-4); n <= 4; n++ {
		if d := st.Num.Norm(l.Sub(g.code.Mul(n))); d.IsConst() {
			return true
		}
	}
	return false
}

// listOfCode tells whether a list of header values depends on nothing but the
// status code.
func (g *genClient) list(st *State, v Val) ([]*ai.Term, bool) {
	s, is := st.Canon(v).(ai.VSlice)
	if !is {
		return nil, st.IsNil(v) > 0
	}
	n := st.Num.Norm(s.Len)
	if !n.IsConst() || n.K > 64 {
		return nil, false
	}
	var out []*ai.Term
	for i := int64(0); i < n.K; i++ {
		r, is := st.Canon(st.Elem(s.Arr, s.Off.AddK(i), types.Typ[types.String])).(ai.VRef)
		if !is {
			return nil, false
		}
		out = append(out, st.Find(r.T))
	}
	return out, true
}

func show(st *State, ts []*ai.Term) string {
	var out []string
	for _, t := range ts {
		out = append(out, st.ShowVal(ref(t)))
	}
	return strings.Join(out, ", ")
}

func (g *genClient) result(o Outcome) {
	st := o.St
	if !g.ob(st, "a page is made for every code", !o.Panic, "the generator panics with %s", st.ShowVal(o.Val)) {
		return
	}
	hdrs, b := tup(o.Val, 0), tup(o.Val, 1)
	r, is := st.Canon(b).(ai.VRef)
	if !g.ob(st, "a page has a body and headers", is && r.T.Op == "page" && st.IsNil(hdrs) < 0, "the page is %s, %s", st.ShowVal(hdrs), st.ShowVal(b)) {
		return
	}
	text := st.Find(r.T.Args[0])
	if id, is := mapID(g.in, st, hdrs, g.p.Std("net/http", "Header")); is {
		g.ob(st, "a page has headers of its own", st.Heap[id].Fresh, "the header map is shared between pages")
	}
	get := func(st *State, key Val) []ai.MapVal {
		return g.in.MapGet(st, hdrs, g.p.Std("net/http", "Header"), key)
	}
	name := func(s string) Val { return ref(ai.StrConst(s)) }
	// the length
	for _, h := range get(st.Clone(), name("Content-Length")) {
		ts, known := g.list(h.St, h.V)
		n := h.St.LenOf(text)
		good := h.Present && known && len(ts) == 1 && h.St.Same(ref(ts[0]), ref(ai.Itoa(h.St, n)))
		g.ob(h.St, "Content-Length is the length of the body", good, "Content-Length is %s, the length of the page is %s", h.St.ShowVal(h.V), h.St.Num.Norm(n))
	}
	// the value of a header, if it is a constant
	constant := func(key string, f func(v string) bool) (bool, string) {
		for _, h := range get(st.Clone(), name(key)) {
			ts, known := g.list(h.St, h.V)
			good := false
			if h.Present && known && len(ts) == 1 {
				v, is := ts[0].IsStrConst()
				good = is && f(strings.ToLower(v))
			}
			if !good {
				return false, show(h.St, ts)
			}
		}
		return true, ""
	}
	good, v := constant("Content-Type", func(v string) bool {
		if g.op == "GenerateErrorPage" {
			return strings.HasPrefix(v, "text/")
		}
		return strings.HasPrefix(v, "text/html") && strings.Contains(v, "utf-8")
	})
	g.ob(st, "a page names its media type", good, "Content-Type is %q", v)
	if g.op == "GenerateErrorPage" {
		good, v := constant("Cache-Control", func(v string) bool {
			return strings.Contains(v, "no-cache") || strings.Contains(v, "no-store") || strings.Contains(v, "max-age=0")
		})
		g.ob(st, "an error page is not to be reused", good, "Cache-Control is %q", v)
		g.ob(st, "an error page depends on the code only", g.ofCode(st, text), "the page is %s", st.ShowVal(ref(text)))
		for _, h := range get(st.Clone(), g.key) {
			ts, known := g.list(h.St, h.V)
			good := !h.Present || known
			for _, t := range ts {
				good = good && g.ofCode(h.St, t)
			}
			if h.Present && !good {
				// the length is that of a text that depends on the code only
				good = len(ts) == 1 && g.ofCode(st, text) && h.St.Same(ref(ts[0]), ref(ai.Itoa(h.St, h.St.LenOf(text))))
			}
			g.ob(h.St, "an error page depends on the code only", good, "header %s is %s", h.St.ShowVal(g.key), show(h.St, ts))
		}
		return
	}
	for _, h := range get(st.Clone(), name("Location")) {
		ts, known := g.list(h.St, h.V)
		g.ob(h.St, "the Location header is the given location", h.Present && known && len(ts) == 1 && h.St.Same(ref(ts[0]), ref(g.loc)), "Location is %s", show(h.St, ts))
	}
	g.html(st, text)
}

// html checks where a page contains the location.
func (g *genClient) html(st *State, text *ai.Term) {
	n := 0
	ctx := newHTMLContext()
	for _, p := range parts(st, text) {
		if s, is := p.IsStrConst(); is {
			ctx.feed(s)
			continue
		}
		if g.ofCode(st, p) {
			ctx.feed("0")
			continue
		}
		escaped := p.Op == "pure" && len(p.Args) == 1 && st.Find(p.Args[0]) == st.Find(g.loc)
		is := false
		for _, f := range escapers {
			is = is || p.S == f
		}
		if !g.ob(st, "the page contains the location only escaped", escaped && is, "the page contains %s", st.ShowVal(ref(p))) {
			continue
		}
		n++
		g.ob(st, "the location is text or a quoted attribute value", ctx.safe(), "the page contains the location %s", ctx)
		ctx.feed("x")
	}
	g.ob(st, "the page contains the location only escaped", n > 0, "the page does not contain the location")
}

// htmlContext follows the syntax of a constant piece of HTML as far as needed
// to tell text, tags and attribute values apart.
type htmlContext struct{ in string }

func newHTMLContext() *htmlContext { return &htmlContext{"text"} }

func (h *htmlContext) feed(s string) {
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch h.in {
		case "text":
			if b == '<' {
				h.in = "tag"
				if strings.HasPrefix(s[i:], "<!--") {
					h.in = "comment"
				}
				l := strings.ToLower(s[i:])
				if strings.HasPrefix(l, "<script") || strings.HasPrefix(l, "<style") {
					h.in = "raw"
				}
			}
		case "comment":
			if b == '>' && i >= 2 && s[i-2:i] == "--" {
				h.in = "text"
			}
		case "raw":
			l := strings.ToLower(s[i:])
			if strings.HasPrefix(l, "</script") || strings.HasPrefix(l, "</style") {
				h.in = "tag"
			}
		case "tag":
			switch b {
			case '>':
				h.in = "text"
			case '"':
				h.in = "double"
			case '\'':
				h.in = "single"
			}
		case "double":
			if b == '"' {
				h.in = "tag"
			}
		case "single":
			if b == '\'' {
				h.in = "tag"
			}
		}
	}
}

// safe tells whether escaped text cannot leave its place here.
func (h *htmlContext) safe() bool { return h.in == "text" || h.in == "double" || h.in == "single" }

func (h *htmlContext) String() string {
	return map[string]string{"text": "as text", "tag": "inside a tag", "comment": "inside a comment", "raw": "inside a script or style sheet", "double": "quoted", "single": "quoted"}[h.in]
}
