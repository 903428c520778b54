package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/ai"
)

// Concurrency of the bodies.  While the operations are analysed, every access
// to memory is recorded with its role (the body itself, the part it shares with
// its copies, another body reached through the shared part), its location, the
// locks held and whether the body is still reachable through the shared part.
// Afterwards accesses that may happen at the same time are compared: two
// accesses to one location, one of which writes, need a common lock.  What the
// sequential analysis shows for operations that run one after another then
// holds for all interleavings if in addition every operation is two-phase: it
// takes no lock again (or another one) after it has released one, as far as the
// data protected by them can change.

type access struct {
	typ   string // type of the body
	role  string // own, shared, other, fresh
	loc   string
	write bool
	locks string // sorted, "x:...;S:..."
	reg   bool   // other bodies may find this body
	last  bool   // made by the Close of the last open body
	op    string
}

type accessInfo struct {
	where string
	st    *State
}

type phasePair struct{ typ, op, first, second string }

type edge struct{ typ, from, to string }

type concLog struct {
	acc     map[access]accessInfo
	phases  map[phasePair]accessInfo
	edges   map[edge]accessInfo
	noLock  map[string]bool // types whose Close may end without having taken a shared lock
	roles   map[ai.ObjID]string
	names   map[ai.ObjID]string
	otherOf map[ai.ObjID]bool
	arg     ai.ObjID
	typ     string
	on      bool
	last    bool
	nacc    int
}

func newConcLog() *concLog {
	return &concLog{acc: map[access]accessInfo{}, phases: map[phasePair]accessInfo{}, edges: map[edge]accessInfo{}, noLock: map[string]bool{}}
}

// forget drops what was recorded for a type of body.
func (l *concLog) forget(typ string) {
	for a := range l.acc {
		if a.typ == typ {
			delete(l.acc, a)
		}
	}
	for p := range l.phases {
		if p.typ == typ {
			delete(l.phases, p)
		}
	}
	for e := range l.edges {
		if e.typ == typ {
			delete(l.edges, e)
		}
	}
	delete(l.noLock, typ)
}

// walkFrom visits the objects reachable from v, with a name for each: the type
// that holds them and the field.
func (c *bodyClient) walkFrom(st *State, v Val, name string, visit func(id ai.ObjID, name string) bool) {
	var walk func(v Val, name string)
	obj := func(id ai.ObjID, name string) {
		o := st.Heap[id]
		if id <= c.table.Mark.Obj || o == nil || !visit(id, name) {
			return
		}
		switch o.Kind {
		case "cells":
			for _, f := range ai.Leaves(o.Type, "") {
				walk(st.Cell(o, f), short(o.Type)+ai.FieldName(o.Type, f))
			}
		case "map":
			for _, e := range o.Map.Ents {
				if st.Decide(e.P) >= 0 {
					walk(e.K, name+"[key]")
					walk(e.V, name+"[]")
				}
			}
		}
	}
	walk = func(v Val, name string) {
		switch x := st.Canon(v).(type) {
		case ai.VPtr:
			obj(x.Obj, name)
		case ai.VSlice:
			if x.Arr != 0 {
				obj(x.Arr, name+"[]")
			}
		case ai.VIface:
			walk(x.V, name)
		case ai.VStruct:
			for _, f := range x.F {
				walk(f, name)
			}
		}
	}
	walk(v, name)
}

// assignRoles gives every object reachable from body v its role.
func (c *bodyClient) assignRoles(st *State, v Val) {
	l := c.log
	l.roles, l.names = map[ai.ObjID]string{}, map[ai.ObjID]string{}
	root, _ := bodyPtr(v)
	for _, p := range c.pathsOf(v) {
		x := c.resolve(st, v, p)
		if x == nil {
			continue
		}
		name := "shared"
		if q, is := x.(ai.VPtr); is && st.Heap[q.Obj] != nil && st.Heap[q.Obj].Kind == "cells" {
			name = short(st.Heap[q.Obj].Type)
		}
		c.walkFrom(st, x, name, func(id ai.ObjID, n string) bool {
			if id == root.Obj || l.roles[id] != "" {
				return false
			}
			if c.isBody(st, id) {
				l.roles[id] = "other"
				l.names[id] = n
				return false
			}
			l.roles[id], l.names[id] = "shared", n
			return true
		})
	}
	c.walkFrom(st, v, short(v.(ai.VIface).T), func(id ai.ObjID, n string) bool {
		if r := l.roles[id]; r != "" && id != root.Obj {
			return false
		}
		l.roles[id], l.names[id] = "own", n
		return true
	})
}

// isBody tells whether an object is a body.
func (c *bodyClient) isBody(st *State, id ai.ObjID) bool {
	o := st.Heap[id]
	return o != nil && o.Kind == "cells" && o.Type != nil && types.Implements(types.NewPointer(o.Type), c.bodyT.Underlying().(*types.Interface))
}

// roleOf finds the role of an object.
func (c *bodyClient) roleOf(st *State, id ai.ObjID) (role, name string) {
	l := c.log
	if o := st.Heap[id]; o != nil && o.Root != nil && strings.HasPrefix(o.Root.String(), "global:") {
		return "global", o.Name
	}
	if id <= c.table.Mark.Obj {
		return "", ""
	}
	if r := l.roles[id]; r != "" {
		return r, l.names[id]
	}
	if id <= l.arg {
		return "", "" // an argument of the operation
	}
	if c.conc.imports[id] {
		return "other", short(st.Heap[id].Type)
	}
	// made by this operation: does anybody else know it?
	for _, p := range c.pathsOf(c.conc.root) {
		x := c.resolve(c.conc.start, c.conc.root, p)
		if x == nil {
			continue
		}
		seen := map[ai.ObjID]bool{}
		c.walkFrom(st, x, "shared", func(y ai.ObjID, n string) bool {
			if y == id {
				role, name = "shared", n
			}
			if role != "" || seen[y] || l.roles[y] == "own" || l.roles[y] == "other" {
				return false
			}
			seen[y] = true
			return true
		})
		if role != "" {
			break
		}
	}
	if role == "" {
		seen := map[ai.ObjID]bool{}
		c.walkFrom(st, c.conc.root, "own", func(y ai.ObjID, n string) bool {
			if y == id {
				role, name = "own", n
			}
			if role != "" || seen[y] || l.roles[y] == "other" || l.roles[y] == "shared" {
				return false
			}
			seen[y] = true
			return true
		})
	}
	if role == "shared" && c.isBody(st, id) {
		role, name = "fresh", short(st.Heap[id].Type)
	}
	return role, name
}

// registered tells whether other bodies may find the root.
func (c *bodyClient) registered(st *State) bool {
	root, _ := bodyPtr(c.conc.root)
	for _, id := range c.conc.objs {
		o := st.Heap[id]
		if o == nil || o.Kind != "map" {
			continue
		}
		for _, e := range o.Map.Ents {
			if k, is := st.Canon(e.K).(ai.VPtr); is && k.Obj == root.Obj && st.Decide(e.P) >= 0 {
				return true
			}
			if v, is := st.Canon(e.V).(ai.VPtr); is && v.Obj == root.Obj && st.Decide(e.P) >= 0 {
				return true
			}
		}
	}
	found := false
	for _, p := range c.pathsOf(c.conc.root) {
		if x := c.resolve(c.conc.start, c.conc.root, p); x != nil {
			seen := map[ai.ObjID]bool{}
			c.walkFrom(st, x, "", func(y ai.ObjID, n string) bool {
				if y == root.Obj {
					found = true
				}
				if seen[y] {
					return false
				}
				seen[y] = true
				return true
			})
		}
	}
	return found
}

// lockName names a lock.
func (c *bodyClient) lockName(st *State, id ai.ObjID, path string) string {
	role, _ := c.roleOf(st, id)
	pre := map[string]string{"own": "x:", "shared": "S:", "other": "y:", "global": "G:", "fresh": "n:", "": "n:"}[role]
	o := st.Heap[id]
	return pre + short(o.Type) + ai.FieldName(o.Type, path)
}

// heldLocks lists the locks held.
func (c *bodyClient) heldLocks(st *State) []string {
	var out []string
	for id, o := range st.Heap {
		if o.Kind != "cells" {
			continue
		}
		for p, v := range o.Cells {
			if x, is := v.(ai.VLock); is && x.Held {
				n := c.lockName(st, id, p)
				if x.R {
					n += "(R)"
				}
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (c *bodyClient) access(st *State, id ai.ObjID, field string, write bool, pos token.Pos) {
	l := c.log
	if !l.on || id == 0 {
		return
	}
	role, name := c.roleOf(st, id)
	if role == "" {
		return
	}
	o := st.Heap[id]
	loc := name
	if o != nil && o.Kind == "cells" {
		loc = short(o.Type) + field
	}
	c.record(st, role, loc, write, pos)
}

func (c *bodyClient) record(st *State, role, loc string, write bool, pos token.Pos) {
	l := c.log
	held := c.heldLocks(st)
	a := access{typ: l.typ, role: role, loc: loc, write: write, locks: strings.Join(held, ";"), last: l.last, op: c.op}
	if role == "own" {
		a.reg = c.registered(st)
	}
	l.nacc++
	if _, have := l.acc[a]; !have {
		l.acc[a] = accessInfo{c.in.Pos(pos), st}
	}
	if role == "global" || role == "fresh" {
		return
	}
	// two-phase?
	cls := role + " " + loc
	for _, h := range held {
		h = strings.TrimSuffix(h, "(R)")
		st.Ghost["T|o|"+h+"|"+cls] = ai.VNil{}
		pre := "T|b|" + h + "|"
		for g := range st.Ghost {
			if strings.HasPrefix(g, pre) {
				pp := phasePair{l.typ, c.op, strings.TrimPrefix(g, pre), cls}
				if _, have := l.phases[pp]; !have {
					l.phases[pp] = accessInfo{c.in.Pos(pos), st}
				}
			}
		}
	}
}

func (c *bodyClient) lockHook(in *ai.Interp, st *State, p ai.VPtr, what string, pos token.Pos) {
	l := c.log
	if !l.on {
		return
	}
	name := c.lockName(st, p.Obj, p.Path)
	switch what {
	case "self-lock":
		c.ob(st, "B02", "no lock is taken twice", false, "%s is locked again by the goroutine that holds it, which blocks forever", name)
	case "unlock-unheld":
		c.ob(st, "B02", "only locks that are held are unlocked", false, "%s is unlocked although it is not held", name)
	case "Lock", "RLock":
		c.ob(st, "B02", "no lock is taken twice", true, "")
		if strings.HasPrefix(name, "S:") {
			st.Ghost["T|S"] = ai.VNil{}
		}
		for _, h := range c.heldLocks(st) {
			h = strings.TrimSuffix(h, "(R)")
			if strings.HasPrefix(h, "n:") || strings.HasPrefix(name, "n:") {
				continue
			}
			cl := func(s string) string {
				if strings.HasPrefix(s, "y:") {
					return "x:" + s[2:]
				}
				return s
			}
			e := edge{l.typ, cl(h), cl(name)}
			if _, have := l.edges[e]; !have {
				l.edges[e] = accessInfo{in.Pos(pos), st}
			}
		}
		var rel []string
		for g := range st.Ghost {
			if strings.HasPrefix(g, "T|r|") {
				rel = append(rel, strings.TrimPrefix(g, "T|r|"))
			}
		}
		for _, r := range rel {
			st.Ghost["T|b|"+name+"|"+r] = ai.VNil{}
		}
	case "Unlock", "RUnlock":
		c.ob(st, "B02", "only locks that are held are unlocked", true, "")
		var gs []string
		for g := range st.Ghost {
			gs = append(gs, g)
		}
		for _, g := range gs {
			if p := "T|o|" + name + "|"; strings.HasPrefix(g, p) {
				st.Ghost["T|r|"+strings.TrimPrefix(g, p)] = ai.VNil{}
				delete(st.Ghost, g)
			}
			if strings.HasPrefix(g, "T|b|"+name+"|") {
				delete(st.Ghost, g)
			}
		}
	}
}

// watch makes the interpreter report accesses.
func (c *bodyClient) watch() {
	h := &c.in.H
	h.Lock = c.lockHook
	h.Load = func(in *ai.Interp, st *State, p ai.VPtr, pos token.Pos) {
		if p.Elem == nil {
			c.access(st, p.Obj, c.fieldOf(st, p), false, pos)
		}
	}
	h.Store = func(in *ai.Interp, st *State, p ai.VPtr, v Val, pos token.Pos) {
		if p.Elem == nil {
			c.access(st, p.Obj, c.fieldOf(st, p), true, pos)
		}
	}
	h.MapAccess = func(in *ai.Interp, st *State, m ai.ObjID, key Val, write bool, pos token.Pos) {
		c.access(st, m, "", write, pos)
	}
	h.ArrayAccess = func(in *ai.Interp, st *State, a ai.ObjID, write bool, pos token.Pos) {
		c.access(st, a, "", write, pos)
	}
}

func (c *bodyClient) fieldOf(st *State, p ai.VPtr) string {
	o := st.Heap[p.Obj]
	if o == nil || o.Kind != "cells" {
		return ""
	}
	return ai.FieldName(o.Type, p.Path)
}

// usesSource records a call of the source.
func (c *bodyClient) usesSource(st *State, pos token.Pos) {
	if c.log.on {
		c.record(st, "shared", "the source", true, pos)
	}
}

// startLog is called at the start of an operation.
func (c *bodyClient) startLog(st *State, v Val, op string) {
	l := c.log
	l.on = false
	if _, is := bodyPtr(v); !is {
		return
	}
	l.typ = typeName(v)
	l.arg = ai.MarkNow().Obj
	l.last = op == "Close" && !isTrue(st, "x.closed") && st.Num.Eq(G(st, "G"), k(1))
	c.conc.imports = map[ai.ObjID]bool{}
	c.assignRoles(st, v)
	l.on = true
}

// stopLog is called at the end of an operation.
func (c *bodyClient) stopLog(op string, outs []Outcome) {
	l := c.log
	if !l.on {
		return
	}
	l.on = false
	if op != "Close" || l.last {
		return
	}
	for _, o := range outs {
		if _, took := o.St.Ghost["T|S"]; !took && !o.Panic && !isTrue(o.St, "x.closed") {
			l.noLock[l.typ] = true
		}
	}
}

// protects tells whether holding a and b excludes the two accesses from one
// another: own also counts locks of the body itself.
func common(a, b string, own bool) bool {
	for _, x := range strings.Split(a, ";") {
		for _, y := range strings.Split(b, ";") {
			if x == "" || y == "" {
				continue
			}
			rx, ry := strings.HasSuffix(x, "(R)"), strings.HasSuffix(y, "(R)")
			x1, y1 := strings.TrimSuffix(x, "(R)"), strings.TrimSuffix(y, "(R)")
			if x1 != y1 || rx && ry {
				continue
			}
			if strings.HasPrefix(x1, "S:") || strings.HasPrefix(x1, "G:") || own && strings.HasPrefix(x1, "x:") {
				return true
			}
		}
	}
	return false
}

// swapY turns the locks of the other body into locks of the body itself.
func swapY(locks string) string {
	var out []string
	for _, x := range strings.Split(locks, ";") {
		switch {
		case strings.HasPrefix(x, "y:"):
			out = append(out, "x:"+x[2:])
		case strings.HasPrefix(x, "x:"):
		default:
			out = append(out, x)
		}
	}
	return strings.Join(out, ";")
}

// judgeConcurrency compares the accesses.
func (c *bodyClient) judgeConcurrency() {
	l := c.log
	c.op = "concurrent use"
	byLoc := map[string][]access{}
	for a := range l.acc {
		role := a.role
		if role == "other" || role == "fresh" {
			role = "own"
		}
		key := a.typ + " " + role + " " + a.loc
		byLoc[key] = append(byLoc[key], a)
	}
	var keys []string
	for k := range byLoc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	mutable := map[string]bool{}
	for _, key := range keys {
		as := byLoc[key]
		sort.Slice(as, func(i, j int) bool { return fmt.Sprint(as[i]) < fmt.Sprint(as[j]) })
		for _, a := range as {
			if a.write && !a.last {
				mutable[a.typ+" "+a.role+" "+a.loc] = true
				if a.role == "other" || a.role == "fresh" {
					mutable[a.typ+" own "+a.loc] = true
				}
				if a.role == "own" {
					mutable[a.typ+" other "+a.loc] = true
				}
			}
		}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write {
					continue
				}
				where := a.op + " and " + b.op
				check := func(good bool, how string) {
					c.where = where
					c.ob(l.acc[a].st, "B01", "conflicting accesses hold a common lock", good,
						"%s (%s): %s %s at %s holding [%s] and %s %s at %s holding [%s] without a common lock",
						a.loc, how, a.op, rw(a.write), l.acc[a].where, a.locks, b.op, rw(b.write), l.acc[b].where, b.locks)
				}
				pair := a.role + "+" + b.role
				switch pair {
				case "own+own":
					check(common(a.locks, b.locks, true), "two operations on one body")
				case "shared+shared", "global+global":
					own := pair == "shared+shared" && (a.last || b.last) && !l.noLock[a.typ]
					check(common(a.locks, b.locks, own), "operations on two bodies that share a source")
				case "own+other", "other+own":
					x, y := a, b
					if a.role == "other" {
						x, y = b, a
					}
					if x.reg {
						check(common(x.locks, swapY(y.locks), true), "an operation on a body and one on another that shares its source")
					}
				case "other+other":
					check(common(swapY(a.locks), swapY(b.locks), true), "two operations that reach a third body")
				case "other+fresh", "fresh+other":
					check(common(swapY(a.locks), swapY(b.locks), false), "a new copy that others already know")
				}
			}
		}
	}
	// two-phase
	var ps []phasePair
	for p := range l.phases {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return fmt.Sprint(ps[i]) < fmt.Sprint(ps[j]) })
	for _, p := range ps {
		if !mutable[p.typ+" "+p.first] || !mutable[p.typ+" "+p.second] {
			continue
		}
		prop := map[string]string{"Read": "B07", "ReadAt": "B11", "Seek": "B10", "WriteTo": "B12", "Copy": "B05", "Close": "B04", "BytesRemaining": "B08"}[p.op]
		if prop == "" {
			prop = "B01"
		}
		c.where = p.typ + "." + p.op
		msg := "a lock that protects " + p.first + " is released before " + p.second + " is used under a lock taken later: another operation can come in between"
		at := l.phases[p]
		c.ob(at.st, prop, "operations are atomic", false, "%s at %s", msg, at.where)
		c.ob(at.st, "B01", "operations are atomic", false, "%s at %s", msg, at.where)
		if p.first == "shared the source" || p.second == "shared the source" {
			c.ob(at.st, "B14", "operations are atomic", false, "%s at %s", msg, at.where)
		}
	}
	for _, pr := range []string{"B01", "B04", "B05", "B07", "B08", "B10", "B11", "B12", "B14"} {
		c.where = "all operations"
		c.ob(nil, pr, "operations are atomic", true, "")
	}
	// order of locks
	types := map[string]bool{}
	next := map[string]map[string]bool{}
	for e := range l.edges {
		types[e.typ] = true
		a, b := e.typ+" "+e.from, e.typ+" "+e.to
		if next[a] == nil {
			next[a] = map[string]bool{}
		}
		next[a][b] = true
	}
	var es []edge
	for e := range l.edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
	for _, e := range es {
		from, to := e.typ+" "+e.from, e.typ+" "+e.to
		seen := map[string]bool{}
		var reach func(n string) bool
		reach = func(n string) bool {
			if n == from {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for m := range next[n] {
				if reach(m) {
					return true
				}
			}
			return false
		}
		c.where = e.typ
		c.ob(l.edges[e].st, "B02", "locks are taken in one order", !reach(to), "%s is taken while %s is held (at %s) and elsewhere the other way round: two operations can wait for each other", e.to, e.from, l.edges[e].where)
	}
}

func rw(w bool) string {
	if w {
		return "writes"
	}
	return "reads"
}
