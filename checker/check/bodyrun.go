package check

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

var bodyConfigs = []*bodyConfig{
	{name: "FromBytes", kind: "bytes"},
	{name: "FromString", kind: "string"},
	{name: "Empty", kind: "empty"},
	{name: "AlreadyClosed", kind: "closed"},
	{name: "reader of known length with ReadAt", kind: "reader", mode: "exact", caps: "at"},
	{name: "reader of known length with Seek", kind: "reader", mode: "exact", caps: "seek"},
	{name: "stream of known length", kind: "reader", mode: "exact", caps: "stream"},
	{name: "reader with ReadAt, shorter than declared", kind: "reader", mode: "short", caps: "at"},
	{name: "reader with Seek, shorter than declared", kind: "reader", mode: "short", caps: "seek"},
	{name: "stream shorter than declared", kind: "reader", mode: "short", caps: "stream"},
	{name: "reader of unknown length with ReadAt", kind: "reader", mode: "unknown", caps: "at"},
	{name: "reader of unknown length with Seek", kind: "reader", mode: "unknown", caps: "seek"},
	{name: "stream of unknown length", kind: "reader", mode: "unknown", caps: "stream"},
}

func bodyParts() []string {
	var out []string
	for _, c := range bodyConfigs {
		out = append(out, c.name)
	}
	// those that take longest first
	sort.SliceStable(out, func(i, j int) bool {
		return strings.Contains(out[i], "shorter") && !strings.Contains(out[j], "shorter")
	})
	return out
}

// Body runs the client of the bodies, for one configuration or (if part is
// empty) for all.
func (p *Program) Body(r *Report, part string) *ai.Interp {
	in := p.NewInterp()
	in.NoWrap32 = true // fewer than 2^31 bodies share a source
	only := part
	if only == "" {
		only = os.Getenv("BODYCFG")
	}
	for _, cfg := range bodyConfigs {
		if only != "" && cfg.name != only {
			continue
		}
		c := p.newBodyClient(r, in, cfg)
		c.explore()
	}
	return in
}

// concState is what is known about how bodies share state.
type concState struct {
	paths   map[string]map[string]bool // by type of body: where the shared part hangs
	mutates map[string]bool            // "type op": the operation changes the shared part
	ranged  bool                       // the operation looked at arbitrary other bodies
	root    Val                        // the body under analysis
	start   *State                     // state at the start of the operation
	objs    []ai.ObjID                 // shared objects at the start of the operation
	imports map[ai.ObjID]bool          // other bodies brought into the state by the operation
}

// sharedGhosts are the ghosts of the shared part.
var sharedGhosts = []string{"G", "srcClosed", "cur", "ended", "endPos", "srcErr"}

func (c *bodyClient) sourceUse(st *State, m string, pos token.Pos) { c.usesSource(st, pos) }

func bodyPtr(v Val) (ai.VPtr, bool) {
	i, is := v.(ai.VIface)
	if !is {
		return ai.VPtr{}, false
	}
	p, is := i.V.(ai.VPtr)
	return p, is
}

// findShared records what a body and its copy have in common.
func (c *bodyClient) findShared(st *State, x, y Val) {
	p, ok := bodyPtr(x)
	q, ok2 := bodyPtr(y)
	if !ok || !ok2 || p.Obj == q.Obj || typeName(x) != typeName(y) {
		return
	}
	set := c.conc.paths[typeName(x)]
	if set == nil {
		set = map[string]bool{}
		c.conc.paths[typeName(x)] = set
	}
	seen := map[ai.ObjID]bool{}
	var walk func(a, b Val, path string)
	walk = func(a, b Val, path string) {
		a, b = st.Canon(a), st.Canon(b)
		switch x := a.(type) {
		case ai.VPtr:
			y, is := b.(ai.VPtr)
			if !is || x.Obj <= c.table.Mark.Obj {
				return
			}
			if x.Obj == y.Obj {
				set[path] = true
				return
			}
			if seen[x.Obj] {
				return
			}
			seen[x.Obj] = true
			o, n := st.Heap[x.Obj], st.Heap[y.Obj]
			if o.Kind != "cells" || n.Kind != "cells" {
				return
			}
			for _, k := range ai.Leaves(o.Type, "") {
				walk(st.Cell(o, k), st.Cell(n, k), path+">"+k)
			}
		case ai.VSlice:
			if y, is := b.(ai.VSlice); is && x.Arr == y.Arr && x.Arr > c.table.Mark.Obj {
				set[path] = true
			}
		case ai.VIface:
			if y, is := b.(ai.VIface); is {
				walk(x.V, y.V, path+"!")
			}
		}
	}
	walk(p, q, "")
}

// resolve follows a path from body v.
func (c *bodyClient) resolve(st *State, v Val, path string) Val {
	p, _ := bodyPtr(v)
	var cur Val = p
	for _, k := range strings.Split(path, ">")[1:] {
		n := strings.Count(k, "!")
		k = strings.TrimRight(k, "!")
		q, is := cur.(ai.VPtr)
		if !is || st.Heap[q.Obj] == nil || st.Heap[q.Obj].Kind != "cells" {
			return nil
		}
		cur = st.Cell(st.Heap[q.Obj], k)
		for ; n > 0; n-- {
			i, is := cur.(ai.VIface)
			if !is {
				return nil
			}
			cur = st.Canon(i.V)
		}
	}
	return cur
}

func (c *bodyClient) pathsOf(v Val) []string {
	var out []string
	for k := range c.conc.paths[typeName(v)] {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sharedObjs lists the objects of the shared part of body v.
func (c *bodyClient) sharedObjs(st *State, v Val) []ai.ObjID {
	set := map[ai.ObjID]bool{}
	var walk func(v Val)
	visit := func(id ai.ObjID) {
		if id <= c.table.Mark.Obj || set[id] || st.Heap[id] == nil {
			return
		}
		set[id] = true
		o := st.Heap[id]
		if o.Kind == "cells" {
			for _, k := range ai.Leaves(o.Type, "") {
				walk(st.Cell(o, k))
			}
		}
	}
	walk = func(v Val) {
		switch x := st.Canon(v).(type) {
		case ai.VPtr:
			visit(x.Obj)
		case ai.VSlice:
			if x.Arr != 0 {
				visit(x.Arr)
			}
		case ai.VIface:
			walk(x.V)
		case ai.VStruct:
			for _, f := range x.F {
				walk(f)
			}
		}
	}
	for _, p := range c.pathsOf(v) {
		if x := c.resolve(st, v, p); x != nil {
			walk(x)
		}
	}
	var ids []ai.ObjID
	for id := range set {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// begin records the shared part at the start of an operation.
func (c *bodyClient) begin(st *State, v Val, op string) {
	c.conc.root = v
	c.conc.objs = nil
	c.conc.start = nil
	if _, is := bodyPtr(v); !is {
		return
	}
	c.conc.objs = c.sharedObjs(st, v)
	for _, id := range c.conc.objs {
		o := st.Heap[id]
		pre := "S0|" + strconv.Itoa(int(id)) + "|"
		switch o.Kind {
		case "cells":
			for _, k := range ai.Leaves(o.Type, "") {
				switch x := st.Cell(o, k).(type) {
				case ai.VLock:
				case ai.VSlice:
					st.Ghost[pre+k+"#off"] = vint(x.Off)
					st.Ghost[pre+k+"#len"] = vint(x.Len)
					st.Ghost[pre+k+"#cap"] = vint(x.Cap)
				default:
					st.Ghost[pre+k] = x
				}
			}
		case "map":
			st.Ghost[pre+"size"] = vint(o.Map.Size)
		case "array":
			st.Ghost[pre+"len"] = vint(o.ALen)
		}
	}
	for _, g := range sharedGhosts {
		st.Ghost["S0|"+g] = st.Ghost[g]
	}
	c.conc.start = st.Clone()
}

func dropStart(st *State) {
	for g := range st.Ghost {
		if strings.HasPrefix(g, "S0|") {
			delete(st.Ghost, g)
		}
	}
}

// changesShared tells whether the operation that led to st changed the shared
// part.
func (c *bodyClient) changesShared(st *State) bool {
	if c.conc.start == nil {
		return false
	}
	same := func(a, b Val) bool { return st.Same(st.Canon(a), st.Canon(b)) }
	for _, g := range sharedGhosts {
		if !same(st.Ghost[g], st.Ghost["S0|"+g]) {
			return true
		}
	}
	for _, id := range c.conc.objs {
		o := st.Heap[id]
		if o == nil {
			continue
		}
		old := c.conc.start.Heap[id]
		if o == old {
			continue
		}
		switch o.Kind {
		case "cells":
			for _, k := range ai.Leaves(o.Type, "") {
				a, b := st.Cell(o, k), c.conc.start.Cell(old, k)
				switch x := a.(type) {
				case ai.VLock:
				case ai.VSlice:
					y, is := b.(ai.VSlice)
					if !is || x.Arr != y.Arr || !st.Num.Eq(x.Off, y.Off) || !st.Num.Eq(x.Len, y.Len) {
						return true
					}
				default:
					if !same(a, b) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

// genericKey makes an arbitrary other body that is a key of the map.
func (c *bodyClient) genericKey(in *ai.Interp, st *State, id ai.ObjID) []ai.KV {
	o := st.Heap[id]
	if id <= c.table.Mark.Obj || c.conc.start == nil {
		return nil
	}
	shared := false
	for _, x := range c.conc.objs {
		shared = shared || x == id
	}
	kt, ptr := o.Type.Underlying().(*types.Map).Key().Underlying().(*types.Pointer)
	if !ptr || !shared {
		return nil
	}
	c.conc.ranged = true
	out := []ai.KV{}
	for _, e := range c.table.Entries {
		z := e.Roots[0]
		zp, is := bodyPtr(z)
		if !is || !types.Identical(z.(ai.VIface).T, types.NewPointer(kt.Elem())) || isTrue(e.St, "x.closed") {
			continue
		}
		if typeName(z) != typeName(c.conc.root) {
			continue
		}
		for _, s := range c.importAt(st.Clone(), e, id) {
			out = append(out, ai.KV{St: s.st, K: ai.VPtr{Obj: s.obj}, V: s.val})
		}
		_ = zp
	}
	return out
}

type imported struct {
	st  *State
	obj ai.ObjID
	val Val
}

// importAt adds to st another body, as it was at the start of the operation:
// it is a key of map mid.
func (c *bodyClient) importAt(st *State, e *ai.Entry, mid ai.ObjID) []imported {
	B := e.St.Clone()
	z := e.Roots[0]
	pairs := map[ai.ObjID]ai.ObjID{}
	for _, p := range c.pathsOf(z) {
		a, b := c.resolve(c.conc.start, c.conc.root, p), c.resolve(B, z, p)
		if a == nil || b == nil || !c.in.Same(c.conc.start, B, c.table.Mark, a, b, pairs) {
			return nil
		}
	}
	// z is a key
	var mb ai.ObjID
	for b, a := range pairs {
		if a == mid {
			mb = b
		}
	}
	if mb == 0 {
		return nil
	}
	zp, _ := bodyPtr(z)
	var val Val
	found := false
	for _, en := range B.Heap[mb].Map.Ents {
		if k, is := en.K.(ai.VPtr); is && k.Obj == zp.Obj {
			switch B.Decide(en.P) {
			case 1:
				val, found = en.V, true
			case -1:
				return nil
			}
		}
	}
	if !found {
		return nil
	}
	for _, g := range []string{"ended", "srcClosed"} {
		if constOf(st, "S0|"+g) != constOf(B, g) {
			return nil
		}
	}
	m := c.in.NewMerge(st, B, c.table.Mark, pairs, "generic-key ")
	if !m.Run() {
		return nil
	}
	work := []*State{st}
	step := func(g string, b Val) {
		var nx []*State
		for _, s := range work {
			a, has := s.Ghost[g]
			if !has {
				nx = append(nx, s)
				continue
			}
			nx = append(nx, s.Equate(a, b)...)
		}
		work = nx
	}
	var bs []int
	for b := range pairs {
		bs = append(bs, int(b))
	}
	sort.Ints(bs)
	for _, bi := range bs {
		b := ai.ObjID(bi)
		o := B.Heap[b]
		pre := "S0|" + strconv.Itoa(int(pairs[b])) + "|"
		switch o.Kind {
		case "cells":
			for _, k := range ai.Leaves(o.Type, "") {
				switch x := B.Cell(o, k).(type) {
				case ai.VLock:
				case ai.VSlice:
					step(pre+k+"#off", vint(m.Lin(x.Off)))
					step(pre+k+"#len", vint(m.Lin(x.Len)))
					step(pre+k+"#cap", vint(m.Lin(x.Cap)))
				default:
					step(pre+k, m.Val(x))
				}
			}
		case "map":
			step(pre+"size", vint(m.Lin(o.Map.Size)))
		case "array":
			step(pre+"len", vint(m.Lin(o.ALen)))
		}
	}
	for _, g := range sharedGhosts {
		step("S0|"+g, m.Val(B.Ghost[g]))
	}
	obj := m.Obj(zp.Obj)
	if c.conc.imports != nil {
		c.conc.imports[obj] = true
	}
	var out []imported
	for _, s := range work {
		s.Num.AddLe(k(2), G(s, "S0|G"))
		if s.Bad() || !s.Num.Feasible() {
			continue
		}
		n := s.Mut(mid)
		n.Map.Ents = append(n.Map.Ents, ai.Ent{K: ai.VPtr{Obj: obj}, P: ai.True, V: m.Val(val), Generic: true})
		out = append(out, imported{s, obj, m.Val(val)})
	}
	return out
}

// together makes the states in which the bodies of both views exist.
type pairState struct {
	st *State
	y  Val
}

func (c *bodyClient) together(e1, e2 *ai.Entry) []pairState {
	A, B := e1.St.Clone(), e2.St.Clone()
	x, y := e1.Roots[0], e2.Roots[0]
	if typeName(x) != typeName(y) {
		return nil
	}
	for _, g := range []string{"ended", "srcClosed"} {
		if constOf(A, g) != constOf(B, g) {
			return nil
		}
	}
	pairs := map[ai.ObjID]ai.ObjID{}
	for _, p := range c.pathsOf(x) {
		a, b := c.resolve(A, x, p), c.resolve(B, y, p)
		if a == nil || b == nil || !c.in.Same(A, B, c.table.Mark, a, b, pairs) {
			return nil
		}
	}
	m := c.in.NewMerge(A, B, c.table.Mark, pairs, "other ")
	if !m.Run() {
		return nil
	}
	work := m.Unify()
	for _, g := range sharedGhosts {
		var nx []*State
		for _, s := range work {
			nx = append(nx, s.Equate(s.Ghost[g], m.Val(B.Ghost[g]))...)
		}
		work = nx
	}
	var out []pairState
	for _, s := range work {
		s.Num.AddLe(k(2), G(s, "G"))
		if s.Bad() || !s.Num.Feasible() {
			continue
		}
		for _, g := range []string{"P", "beyond", "sticky", "closed"} {
			s.Ghost["o."+g] = s.Ghost["x."+g]
			s.Ghost["x."+g] = m.Val(B.Ghost["x."+g])
		}
		out = append(out, pairState{s, m.Val(y)})
	}
	return out
}

func (c *bodyClient) swapBack(st *State) {
	for _, g := range []string{"P", "beyond", "sticky", "closed"} {
		st.Ghost["x."+g] = st.Ghost["o."+g]
		delete(st.Ghost, "o."+g)
	}
}

func (c *bodyClient) explore() {
	c.in.H = ai.Hooks{Invoke: c.invoke, GenericKey: c.genericKey}
	c.log = newConcLog()
	c.watch()
	defer c.judgeConcurrency()
	c.conc = &concState{paths: map[string]map[string]bool{}, mutates: map[string]bool{}}
	st := c.env()
	c.table = c.in.NewTable()
	c.table.Key = c.key
	c.table.Fixed = true
	c.table.From(st)
	if ai.Debug {
		c.table.Log = func(s string) { fmt.Println(c.cfg.name, c.op, s) }
	}
	for _, m := range c.construct(st) {
		c.constructed(m)
	}
	version := func() int {
		n := len(c.table.Entries)
		for _, e := range c.table.Entries {
			n += e.Joins
		}
		return n
	}
	type rec struct{ a, b, table int }
	done := map[string]rec{}
	// stale tells whether the result of what is named may have changed
	stale := func(name string, a, b int) bool {
		d, ok := done[name]
		return !ok || d.a != a || d.b != b || d.table >= 0 && d.table != version()
	}
	note := func(name string, a, b, v int) {
		d := rec{a, b, -1}
		if c.conc.ranged {
			d.table = v
		}
		done[name] = d
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(c.table.Entries); i++ {
			e := c.table.Entries[i]
			v := e.Roots[0]
			for _, op := range c.methodsOf(v) {
				name := fmt.Sprint(i, op)
				if !stale(name, e.Joins, 0) {
					continue
				}
				changed = true
				if ai.Debug {
					fmt.Println("== ", c.cfg.name, "entry", e.N, e.Key, op)
				}
				a, ver := e.Joins, version()
				c.conc.ranged = false
				for _, x := range c.run(e.St, v, op) {
					if x.copy != nil {
						n := len(c.pathsOf(v))
						c.findShared(x.st, v, x.copy)
						if len(c.pathsOf(v)) != n { // roles change
							c.log.forget(typeName(v))
							done = map[string]rec{}
						}
					}
					if c.changesShared(x.st) {
						c.conc.mutates[typeName(v)+" "+op] = true
					}
					if c.add(x.st, v, op) {
						c.observe(x.st, v, observed[op])
					}
					if x.copy != nil && c.add(x.st, x.copy, "the result of Copy") {
						c.observe(x.st, x.copy, "B05")
					}
				}
				note(name, a, 0, ver)
			}
		}
		if changed {
			continue
		}
		if os.Getenv("BODYNOPAIR") != "" {
			break
		}
		// what the other bodies do
		for i := 0; i < len(c.table.Entries) && !changed; i++ {
			for j := 0; j < len(c.table.Entries) && !changed; j++ {
				e1, e2 := c.table.Entries[i], c.table.Entries[j]
				name := fmt.Sprint("pair ", i, " ", j)
				if len(c.pathsOf(e1.Roots[0])) == 0 || typeName(e1.Roots[0]) != typeName(e2.Roots[0]) || isTrue(e1.St, "x.closed") || isTrue(e2.St, "x.closed") || !stale(name, e1.Joins, e2.Joins) {
					continue
				}
				a, b, ver := e1.Joins, e2.Joins, version()
				c.conc.ranged = false
				for _, ps := range c.together(e1, e2) {
					for _, op := range c.methodsOf(ps.y) {
						if !c.conc.mutates[typeName(ps.y)+" "+op] {
							continue
						}
						if ai.Debug {
							fmt.Println("== ", c.cfg.name, "pair", i, j, e1.Key, e2.Key, op)
						}
						for _, x := range c.run(ps.st, ps.y, op) {
							c.swapBack(x.st)
							if c.add(x.st, e1.Roots[0], "another body: "+op) {
								changed = true
								l := "B05"
								if c.buffered {
									l = "B05 B15"
								}
								c.observe(x.st, e1.Roots[0], l)
							}
						}
					}
				}
				note(name, a, b, ver)
			}
		}
	}
}

// constructed checks what the constructor returned.
func (c *bodyClient) constructed(m made) {
	st := m.st
	c.locksFree(st, nil)
	v := st.Canon(m.v)
	i, is := v.(ai.VIface)
	srcErr := st.Canon(st.Ghost["op.srcErr"])
	if c.cfg.kind == "reader" {
		c.ob(st, "B17", "a body or an error", is == (st.IsNil(m.err) > 0) && (is || st.IsNil(v) > 0), "the constructor returns %s, %s", st.ShowVal(v), st.ShowVal(m.err))
		if is {
			c.ob(st, "B17", "failures of measuring are reported", st.IsNil(srcErr) > 0, "measuring failed and a body is returned")
			c.ob(st, "B17", "a measured reader is rewound", st.Num.Eq(G(st, "cur"), k(0)), "the body starts with the reader at %s", G(st, "cur"))
		} else {
			c.ob(st, "B17", "the error wraps the reader's error", st.IsNil(srcErr) < 0 && wraps(st, st.Canon(m.err), srcErr), "the reader's error is %s, the constructor returns %s", st.ShowVal(srcErr), st.ShowVal(m.err))
		}
	}
	if !is {
		if c.cfg.kind != "reader" {
			c.ob(st, "B06", "the promised interfaces", false, "%s returns %s", c.where, st.ShowVal(v))
		}
		return
	}
	want := []types.Type{c.seekerT, c.readerAtT, c.writerToT}
	if c.cfg.kind == "reader" {
		impl := func(t types.Type) bool { return st.Decide(ai.Atom(ai.ImplAtom(c.src, t))) >= 0 }
		seek, at, file := impl(c.seekerT), impl(c.readerAtT), impl(c.fileT)
		want = nil
		if seek || at && file {
			want = []types.Type{c.seekerT, c.readerAtT}
		}
	}
	for _, t := range want {
		c.ob(st, "B06", "the promised interfaces", Impl(i.T, t), "the body made is %s, which does not implement %s", short(i.T), short(t))
	}
	if c.cfg.kind == "closed" {
		st.Ghost["x.closed"] = vbool(true)
	} else {
		st.Ghost["G"] = vint(k(1))
	}
	if c.add(st, v, c.where) {
		l := "B17"
		if c.cfg.kind == "closed" {
			l = "B03"
		} else if c.cfg.kind != "reader" {
			l = "B07"
		}
		c.observe(st, v, l)
	}
}

// observe checks that a state which an operation left is as it should be, by
// running the operations that look at it; failures are attributed to the
// operation, that is to the properties in label.
func (c *bodyClient) observe(st *State, v Val, label string) {
	if label == "" {
		return
	}
	conc, op, where := *c.conc, c.op, c.where
	c.observing, c.label, c.labelRule = true, label, "the state afterwards is right"
	for _, o := range []string{"BytesRemaining", "Read", "Seek"} {
		if fn, _ := c.p.methodOf(v, o); fn == nil {
			continue
		}
		s := st.Clone()
		c.dropOp(s)
		c.forgetOthers(s, v)
		c.run(s, v, o)
	}
	c.observing, c.label = false, ""
	mut, paths := c.conc.mutates, c.conc.paths
	*c.conc = conc
	c.conc.mutates, c.conc.paths = mut, paths
	c.op, c.where = op, where
}

// observed says to which properties the effects of an operation belong.
var observed = map[string]string{"Copy": "B05", "ReadAt": "B11", "Seek": "B10", "WriteTo": "B12", "BytesRemaining": "B08", "Unwrap": "B05"}

var _ *ssa.Function

// wraps tells whether err is or wraps inner.
func wraps(st *State, err, inner Val) bool { return st.Decide(st.IsForm(err, inner)) > 0 }
