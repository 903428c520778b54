package num

import (
	"sort"
	"strings"
	"sync/atomic"
)

// Sys is a conjunction of linear equalities (kept in solved form) and linear
// inequalities over integer symbols.  A Sys is mutable until it is cloned or
// shared; Clone is cheap.
type Sys struct {
	defs  map[Sym]Lin // solved equalities; right-hand sides contain no solved symbol
	ineq  []Lin       // each <= 0, over unsolved symbols
	bot   bool
	cache *memo
}

// memo holds what was found out about a system, and some of its solutions.
type memo struct {
	known  map[string]bool
	points []map[Sym]frac
}

func (s *Sys) lookup(k string) (v, ok bool) {
	if s.cache != nil {
		v, ok = s.cache.known[k]
	}
	return
}

const maxPoints = 16

// point keeps a solution of the inequalities part of s, completed by an older
// one for the other symbols, which are independent of it.
func (s *Sys) point(part map[Sym]frac) {
	if part == nil {
		return
	}
	c := s.memory()
	p := map[Sym]frac{}
	if len(c.points) > 0 {
		for k, v := range c.points[0] {
			p[k] = v
		}
	}
	for k, v := range part {
		p[k] = v
	}
	for _, l := range s.ineq {
		if v, ok := value(l, p); !ok || v.n > 0 {
			return
		}
	}
	if len(c.points) < maxPoints {
		c.points = append(c.points, p)
	} else {
		c.points[1+int(Stats.LP)%(maxPoints-1)] = p
	}
}

// refuted tells whether a known solution has l >= 1.
func (s *Sys) refuted(l Lin) bool {
	if s.cache == nil {
		return false
	}
	for _, p := range s.cache.points {
		if above(l, p) {
			return true
		}
	}
	return false
}

func above(l Lin, p map[Sym]frac) bool {
	v, ok := value(l, p)
	return ok && v.n >= v.d
}

// value evaluates l at p.
func value(l Lin, p map[Sym]frac) (sum frac, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(Overflow); !is {
				panic(x)
			}
			ok = false
		}
	}()
	var f fracField
	sum = f.from(l.K)
	for _, t := range l.T {
		if v, ok := p[t.S]; ok && v.n != 0 {
			sum = f.add(sum, f.mul(f.from(t.C), v))
		}
	}
	return sum, true
}

func (s *Sys) memory() *memo {
	if s.cache == nil {
		s.cache = &memo{known: map[string]bool{}}
	}
	return s.cache
}

var next int32

// Fresh makes a new symbol.
func Fresh(name string) Sym {
	s := Sym(atomic.AddInt32(&next, 1))
	if name != "" {
		Names[s] = name + "$" + itoa(int(s))
	}
	return s
}

// Mark returns the newest symbol made so far.
func Mark() Sym { return Sym(atomic.LoadInt32(&next)) }

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b []byte
	for i > 0 {
		b = append([]byte{byte('0' + i%10)}, b...)
		i /= 10
	}
	return string(b)
}

// Stats counts work done.
var Stats struct{ LP, Joins, Entails int }

// New returns the system without constraints except those on BIG.
func New() *Sys {
	s := &Sys{defs: map[Sym]Lin{}}
	// 2^62 is larger than any constant used here.
	s.ineq = []Lin{Const(bigMin).Sub(Big)}
	return s
}

// Clone copies s.
func (s *Sys) Clone() *Sys {
	d := make(map[Sym]Lin, len(s.defs)+2)
	for k, v := range s.defs {
		d[k] = v
	}
	return &Sys{defs: d, ineq: s.ineq[:len(s.ineq):len(s.ineq)], bot: s.bot, cache: s.cache}
}

// Bot tells whether s is known to be contradictory.
func (s *Sys) Bot() bool { return s.bot }

// Norm rewrites l over unsolved symbols.
func (s *Sys) Norm(l Lin) Lin {
	if len(l.T) == 0 || len(s.defs) == 0 {
		return l
	}
	r := l
	for _, t := range l.T {
		if d, ok := s.defs[t.S]; ok {
			r = r.AddMul(Var(t.S), -t.C).AddMul(d, t.C)
		}
	}
	return r
}

// AddEq0 adds l == 0.
func (s *Sys) AddEq0(l Lin) {
	if s.bot {
		return
	}
	if !guard(func() { l = s.Norm(l) }) || l.huge() {
		return
	}
	if l.IsConst() {
		if l.K != 0 {
			s.bot = true
		}
		return
	}
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	if g > 1 {
		if l.K%g != 0 {
			s.bot = true
			return
		}
		m := Lin{K: l.K / g, T: make([]Term, len(l.T))}
		for i, t := range l.T {
			m.T[i] = Term{t.S, t.C / g}
		}
		l = m
	}
	s.cache = nil
	// prefer the newest symbol with a unit coefficient (never BIG)
	for i := len(l.T) - 1; i >= 0; i-- {
		t := l.T[i]
		if t.S == 0 || (t.C != 1 && t.C != -1) {
			continue
		}
		d := l.AddMul(Var(t.S), -t.C).Mul(-t.C)
		if s.solve(t.S, d) {
			return
		}
	}
	s.addIneq(l)
	s.addIneq(l.Mul(-1))
}

func (s *Sys) solve(v Sym, d Lin) bool {
	upd := map[Sym]Lin{}
	for k, x := range s.defs {
		if x.Coef(v) != 0 {
			n, ok := trySubst(x, v, d)
			if !ok {
				return false
			}
			upd[k] = n
		}
	}
	for k, n := range upd {
		s.defs[k] = n
	}
	s.defs[v] = d
	old := s.ineq
	s.ineq = nil
	for _, c := range old {
		if c.Coef(v) != 0 {
			if n, ok := trySubst(c, v, d); ok {
				s.addIneq(n)
			}
		} else {
			s.ineq = append(s.ineq, c)
		}
	}
	return true
}

// AddEq adds a == b.
func (s *Sys) AddEq(a, b Lin) { s.AddEq0(a.Sub(b)) }

// AddLe0 adds l <= 0.
func (s *Sys) AddLe0(l Lin) {
	if s.bot {
		return
	}
	if guard(func() { l = s.Norm(l) }) && !l.huge() {
		s.addIneq(l)
	}
}

// AddLe adds a <= b.
func (s *Sys) AddLe(a, b Lin) { s.AddLe0(a.Sub(b)) }

func (s *Sys) addIneq(l Lin) {
	if l.IsConst() {
		if l.K > 0 {
			s.bot = true
		}
		return
	}
	l = l.tighten()
	for i, c := range s.ineq {
		if c.SameT(l) {
			if c.K >= l.K {
				return
			}
			n := append([]Lin(nil), s.ineq...)
			n[i] = l
			s.ineq = n
			s.cache = nil
			s.checkPair(l)
			return
		}
	}
	s.ineq = append(s.ineq, l)
	s.cache = nil
	s.checkPair(l)
}

// checkPair detects l <= 0 and -l' <= 0 meeting in an equality or contradiction.
func (s *Sys) checkPair(l Lin) {
	m := l.Mul(-1)
	for _, c := range s.ineq {
		if c.SameT(m) {
			sum := c.K + l.K
			if sum > 0 {
				s.bot = true
			} else if sum == 0 {
				unit := false
				for _, t := range l.T {
					if t.S != 0 && (t.C == 1 || t.C == -1) {
						unit = true
					}
				}
				if unit {
					// becomes an equality
					var n []Lin
					for _, x := range s.ineq {
						if !x.SameT(l) && !x.SameT(m) {
							n = append(n, x)
						}
					}
					s.ineq = n
					s.AddEq0(l)
				}
			}
			return
		}
	}
}

// Feasible tells whether s has a rational solution (false is definite).
func (s *Sys) Feasible() bool {
	if s.bot {
		return false
	}
	if v, ok := s.lookup("?"); ok {
		return v
	}
	Stats.LP++
	v, p := feasible(s.ineq)
	if v {
		s.point(p)
	}
	s.remember("?", v)
	if !v {
		s.bot = true
	}
	return v
}

func (s *Sys) remember(k string, v bool) {
	s.memory().known[k] = v
}

// Le0 tells whether l <= 0 is entailed.
func (s *Sys) Le0(l Lin) bool {
	if s.bot {
		return true
	}
	Stats.Entails++
	if !guard(func() { l = s.Norm(l) }) || l.huge() {
		return false
	}
	if l.IsConst() {
		if l.K <= 0 {
			return true
		}
		return !s.Feasible()
	}
	l = l.tighten()
	for _, c := range s.ineq {
		if c.SameT(l) && c.K >= l.K {
			return true
		}
	}
	k := l.Key()
	if v, ok := s.lookup(k); ok {
		return v
	}
	if !s.Feasible() {
		return true
	}
	if s.refuted(l) {
		return false
	}
	cs := s.slice(l)
	Stats.LP++
	v, p := feasible(append(cs, Const(1).Sub(l)))
	if v {
		s.point(p)
	}
	s.remember(k, !v)
	return !v
}

// slice returns the inequalities connected to l.
func (s *Sys) slice(l Lin) []Lin {
	in := map[Sym]bool{}
	for _, t := range l.T {
		in[t.S] = true
	}
	used := make([]bool, len(s.ineq))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, c := range s.ineq {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.T {
				if t.S != 0 && in[t.S] {
					hit = true
					break
				}
			}
			if len(c.T) == 1 && c.T[0].S == 0 {
				hit = true
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, t := range c.T {
					in[t.S] = true
				}
			}
		}
	}
	return out
}

// Le tells whether a <= b is entailed.
func (s *Sys) Le(a, b Lin) bool { return s.Le0(a.Sub(b)) }

// Lt tells whether a < b is entailed.
func (s *Sys) Lt(a, b Lin) bool { return s.Le0(a.Sub(b).AddK(1)) }

// Eq tells whether a == b is entailed.
func (s *Sys) Eq(a, b Lin) bool {
	var d Lin
	if !guard(func() { d = s.Norm(a.Sub(b)) }) || d.huge() {
		return false
	}
	if d.IsConst() {
		return d.K == 0 || !s.Feasible()
	}
	return s.Le0(d) && s.Le0(d.Mul(-1))
}

// Ne tells whether a != b is entailed.
func (s *Sys) Ne(a, b Lin) bool { return s.Lt(a, b) || s.Lt(b, a) }

// Constraints returns the equalities (== 0) and inequalities (<= 0) of s.
func (s *Sys) Constraints() (eqs, ineqs []Lin) {
	var ks []int
	for k := range s.defs {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		eqs = append(eqs, Var(Sym(k)).Sub(s.defs[Sym(k)]))
	}
	return eqs, s.ineq
}

func (s *Sys) String() string {
	if s.bot {
		return "false"
	}
	var p []string
	e, i := s.Constraints()
	for _, l := range e {
		p = append(p, l.String()+"=0")
	}
	for _, l := range i {
		p = append(p, l.String()+"<=0")
	}
	return strings.Join(p, ", ")
}

// Restrict keeps the constraints over symbols for which keep holds,
// after eliminating the others.
func Project(eqs, ineqs []Lin, keep func(Sym) bool) (re, ri []Lin) {
	return project(eqs, ineqs, keep, false)
}

// project drops all inequalities if only equalities are asked for.
func project(eqs, ineqs []Lin, keep func(Sym) bool, eqOnly bool) (re, ri []Lin) {
	if eqOnly {
		ineqs = nil
	}
	eqs = append([]Lin(nil), eqs...)
	ineqs = append([]Lin(nil), ineqs...)
	k := func(s Sym) bool { return s == 0 || keep(s) }
	// Gaussian elimination
	for {
		found := false
		for i, e := range eqs {
			for j := len(e.T) - 1; j >= 0; j-- {
				t := e.T[j]
				if k(t.S) || (t.C != 1 && t.C != -1) {
					continue
				}
				d := e.AddMul(Var(t.S), -t.C).Mul(-t.C)
				eqs = append(eqs[:i:i], eqs[i+1:]...)
				eqs = substAll(eqs, t.S, d)
				ineqs = substAll(ineqs, t.S, d)
				found = true
				break
			}
			if found {
				break
			}
		}
		if !found {
			break
		}
	}
	// the same with coefficients other than 1 (over the rationals)
	for again := true; again; {
		again = false
		for i, e := range eqs {
			j := -1
			for x := range e.T {
				if !k(e.T[x].S) {
					j = x
				}
			}
			if j < 0 {
				continue
			}
			v, c := e.T[j].S, e.T[j].C
			if c < 0 {
				e, c = e.Mul(-1), -c
			}
			if c > 1<<20 {
				continue
			}
			fits := true
			elim := func(l Lin) Lin {
				d := l.Coef(v)
				if d == 0 {
					return l
				}
				if d > 1<<20 || d < -(1<<20) {
					fits = false
					return l
				}
				g := gcd(c, d)
				return l.Mul(c/g).AddMul(e, -d/g)
			}
			var ne, ni []Lin
			for x, l := range eqs {
				if x != i {
					ne = append(ne, elim(l).primitive())
				}
			}
			for _, l := range ineqs {
				ni = append(ni, elim(l).tighten())
			}
			if !fits {
				continue
			}
			eqs, ineqs, again = ne, ni, true
			break
		}
	}
	for _, e := range eqs {
		if e.IsConst() {
			continue
		}
		all := true
		for _, t := range e.T {
			if !k(t.S) {
				all = false
			}
		}
		if all {
			re = append(re, e)
		} else {
			ineqs = append(ineqs, e, e.Mul(-1))
		}
	}
	if eqOnly {
		return re, nil
	}
	ineqs = dedup(ineqs)
	// Fourier-Motzkin
	for {
		pos, neg := map[Sym]int{}, map[Sym]int{}
		for _, c := range ineqs {
			for _, t := range c.T {
				if !k(t.S) {
					if t.C > 0 {
						pos[t.S]++
					} else {
						neg[t.S]++
					}
				}
			}
		}
		best, bc := Sym(-1), 1<<30
		seen := func(s Sym) {
			c := pos[s]*neg[s] - pos[s] - neg[s]
			if c < bc || (c == bc && s < best) {
				best, bc = s, c
			}
		}
		for s := range pos {
			seen(s)
		}
		for s := range neg {
			seen(s)
		}
		if best < 0 {
			break
		}
		var p, n, rest []Lin
		for _, c := range ineqs {
			switch x := c.Coef(best); {
			case x > 0:
				p = append(p, c)
			case x < 0:
				n = append(n, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(p)*len(n) <= 150 {
			for _, a := range p {
				for _, b := range n {
					if c, ok := combine(a, b, best); ok {
						rest = append(rest, c)
					}
				}
			}
		}
		ineqs = dedup(rest)
		if len(ineqs) > 40 {
			ineqs = irredundant(ineqs)
		}
	}
	return re, irredundant(ineqs)
}

func combine(a, b Lin, s Sym) (r Lin, ok bool) {
	ok = guard(func() {
		x, y := a.Coef(s), -b.Coef(s)
		g := gcd(x, y)
		r = a.Mul(y/g).AddMul(b, x/g).tighten()
	})
	return r, ok && !r.huge()
}

func substAll(ls []Lin, s Sym, d Lin) []Lin {
	var out []Lin
	for _, l := range ls {
		if m, ok := trySubst(l, s, d); ok {
			out = append(out, m)
		}
	}
	return out
}

func trySubst(l Lin, s Sym, d Lin) (r Lin, ok bool) {
	ok = guard(func() { r = l.Subst(s, d) })
	return r, ok && !r.huge()
}

// primitive divides an equality by the common divisor of its numbers.
func (l Lin) primitive() Lin {
	g := l.K
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	if g < 0 {
		g = -g
	}
	if g <= 1 {
		return l
	}
	r := Lin{K: l.K / g, T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, t.C / g}
	}
	return r
}

func dedup(ls []Lin) []Lin {
	idx := map[string]int{}
	var out []Lin
	for _, l := range ls {
		if l.huge() {
			continue
		}
		if l.IsConst() {
			if l.K <= 0 {
				continue
			}
		}
		l = l.tighten()
		k := Lin{T: l.T}.Key()
		if i, ok := idx[k]; ok {
			if l.K > out[i].K {
				out[i] = l
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, l)
	}
	return out
}

// irredundant drops inequalities entailed by the others.
func irredundant(ls []Lin) []Lin {
	ls = dedup(ls)
	// longest first, so that short constraints survive
	ord := append([]Lin(nil), ls...)
	sort.SliceStable(ord, func(i, j int) bool { return len(ord[i].T) > len(ord[j].T) })
	for i := 0; i < len(ord); {
		rest := append(append([]Lin(nil), ord[:i]...), ord[i+1:]...)
		s := &Sys{ineq: rest}
		Stats.LP++
		if ok, _ := feasible(append(s.slice(ord[i]), Const(1).Sub(ord[i]), Const(bigMin).Sub(Big))); !ok {
			ord = rest
		} else {
			i++
		}
	}
	return ord
}
