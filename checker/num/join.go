package num

import (
	"math/big"
	"sort"
)

// Join over-approximates the union of a and b.  Slots are the joined
// quantities: slot i is Var(slot[i]) in the result, la[i] in a and lb[i] in b.
// Symbols for which common holds mean the same in a, b and the result.
// If weaken is set, only constraints of a (up to renaming) may survive, which
// makes repeated joins end.
//
// If fixed is set, only equalities and constraints of a fixed set of shapes
// survive, so that the result does not depend on the order of joins.  base are
// constraints known to hold in a and b; exprs are
// quantities with the same meaning in both that are worth comparing with.
func Join(a, b *Sys, slot []Sym, la, lb []Lin, common func(Sym) bool, weaken, fixed bool, base, exprs []Lin) *Sys {
	Stats.Joins++
	vocab := map[Sym]bool{}
	for _, s := range slot {
		vocab[s] = true
	}
	keep := func(s Sym) bool { return s == 0 || vocab[s] || common(s) }

	// systems with the slot symbols bound
	fa, fb := a.Clone(), b.Clone()
	bind(fa, slot, la)
	bind(fb, slot, lb)
	if !fa.Feasible() {
		return fb
	}
	if !fb.Feasible() {
		return fa
	}
	if !fixed {
		// is b within a?
		if e, i, ok := renamed(a, slot, la, common); ok {
			in := true
			for _, l := range i {
				in = in && fb.Le0(l)
			}
			for _, l := range e {
				in = in && fb.Le0(l) && fb.Le0(l.Mul(-1))
			}
			if in {
				out := New()
				for _, l := range e {
					out.AddEq0(l)
				}
				for _, l := range i {
					out.AddLe0(l)
				}
				return out
			}
		}
	}

	ea, ia := projected(a, slot, la, keep, fixed)
	eb, ib := projected(b, slot, lb, keep, fixed)

	out := New()
	for _, e := range intersect(ea, eb) {
		out.AddEq0(e)
	}
	var cand []Lin
	if !fixed {
		cand = append(cand, ia...)
		for _, e := range ea {
			cand = append(cand, e, e.Mul(-1))
		}
	}
	if !weaken && !fixed {
		cand = append(cand, ib...)
		for _, e := range eb {
			cand = append(cand, e, e.Mul(-1))
		}
	}
	if fixed {
		for i, l := range [][]Lin{ia, ib, ea, eb} {
			for _, c := range l {
				own := true
				for _, t := range c.T {
					own = own && (t.S == 0 || !vocab[t.S])
				}
				if own {
					cand = append(cand, c)
					if i >= 2 {
						cand = append(cand, c.Mul(-1))
					}
				}
			}
		}
	}
	cand = append(cand, base...)
	// a fixed set, so that joins end even if weakened
	cand = append(cand, Templates(slot, nil)...)
	if fixed {
		var all []Lin
		for _, x := range []*Sys{a, b} {
			e, i := x.Constraints()
			for _, l := range append(append([]Lin(nil), e...), i...) {
				for _, t := range l.T {
					if t.S != 0 && common(t.S) {
						all = append(all, Var(t.S))
					}
				}
			}
		}
		cand = append(cand, boundsBySyms(slot, vocab, all)...)
		// quantities that all states know
		set := map[Sym]bool{}
		var known []Sym
		for _, l := range base {
			for _, t := range l.T {
				if t.S != 0 && !set[t.S] {
					set[t.S] = true
					known = append(known, t.S)
				}
			}
		}
		if len(known) <= 8 {
			cand = append(cand, Templates(known, nil)...)
		}
	} else {
		cand = append(cand, boundsBySyms(slot, vocab, ea, ia, eb, ib)...)
	}
	for _, v := range slot {
		for _, e := range exprs {
			d := Var(v).Sub(e)
			for _, k := range []int64{1, 0} {
				cand = append(cand, d.AddK(k), d.Mul(-1).AddK(k))
			}
		}
	}
	// strongest first
	sort.SliceStable(cand, func(i, j int) bool { return cand[i].K > cand[j].K })
	for _, c := range cand {
		ok := true
		for _, t := range c.T {
			if !keep(t.S) {
				ok = false
			}
		}
		if !ok || out.Le0(c) {
			continue
		}
		if fa.Le0(c) && fb.Le0(c) {
			out.AddLe0(c)
		}
	}
	return out
}

// boundsBySyms tries to bound the slots by symbols common to both systems.
func boundsBySyms(slot []Sym, vocab map[Sym]bool, ls ...[]Lin) []Lin {
	set := map[Sym]bool{}
	for _, l := range ls {
		for _, x := range l {
			for _, t := range x.T {
				if t.S != 0 && !vocab[t.S] {
					set[t.S] = true
				}
			}
		}
	}
	if len(set) > 24 || len(set)*len(slot) > 240 {
		return nil
	}
	var syms []Sym
	for s := range set {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	var out []Lin
	for _, v := range slot {
		for _, s := range syms {
			d := Var(v).Sub(Var(s))
			for _, k := range []int64{1, 0} {
				out = append(out, d.AddK(k), d.Mul(-1).AddK(k))
			}
		}
	}
	return out
}

// Templates are the bounds and differences tried for every join.
func Templates(slot []Sym, extra []Lin) []Lin {
	var out []Lin
	for _, s := range slot {
		v := Var(s)
		for _, k := range []int64{-1, 0, 1, 2} {
			out = append(out, v.AddK(-k), v.Mul(-1).AddK(k))
		}
	}
	for i, s := range slot {
		for j, t := range slot {
			if i == j {
				continue
			}
			d := Var(s).Sub(Var(t))
			for _, k := range []int64{1, 0, -1} {
				out = append(out, d.AddK(k))
			}
		}
	}
	return append(out, extra...)
}

func bind(s *Sys, slot []Sym, ls []Lin) {
	for i, v := range slot {
		s.AddEq(Var(v), ls[i])
	}
}

func projected(s *Sys, slot []Sym, ls []Lin, keep func(Sym) bool, eqOnly bool) (e, i []Lin) {
	eqs, ineqs := s.Constraints()
	all := append([]Lin(nil), eqs...)
	for j, v := range slot {
		all = append(all, Var(v).Sub(ls[j]))
	}
	if eqOnly {
		e, _ = project(all, nil, keep, true)
		for _, c := range ineqs {
			own := true
			for _, t := range c.T {
				own = own && keep(t.S)
			}
			if own {
				i = append(i, c)
			}
		}
		return e, i
	}
	return Project(all, ineqs, keep)
}

// intersect returns the equalities implied by both ea and eb (linear algebra
// over the rationals, scaled back to integers).
func intersect(ea, eb []Lin) []Lin {
	if len(ea) == 0 || len(eb) == 0 {
		return nil
	}
	idx := map[Sym]int{}
	var syms []Sym
	add := func(ls []Lin) {
		for _, l := range ls {
			for _, t := range l.T {
				if _, ok := idx[t.S]; !ok {
					idx[t.S] = len(syms)
					syms = append(syms, t.S)
				}
			}
		}
	}
	add(ea)
	add(eb)
	n := len(syms) + 1
	vec := func(l Lin) []*big.Rat {
		v := make([]*big.Rat, n)
		for i := range v {
			v[i] = new(big.Rat)
		}
		for _, t := range l.T {
			v[idx[t.S]].SetInt64(t.C)
		}
		v[n-1].SetInt64(l.K)
		return v
	}
	// Zassenhaus: rows (a|a), (b|0)
	var rows [][]*big.Rat
	for _, l := range ea {
		v := vec(l)
		rows = append(rows, append(append([]*big.Rat(nil), v...), clone(v)...))
	}
	for _, l := range eb {
		v := vec(l)
		z := make([]*big.Rat, n)
		for i := range z {
			z[i] = new(big.Rat)
		}
		rows = append(rows, append(v, z...))
	}
	r := 0
	for c := 0; c < 2*n && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][c])
		for k := range rows[r] {
			rows[r][k] = new(big.Rat).Mul(rows[r][k], inv)
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				f := new(big.Rat).Set(rows[i][c])
				for k := range rows[i] {
					if rows[r][k].Sign() != 0 {
						rows[i][k] = new(big.Rat).Sub(rows[i][k], new(big.Rat).Mul(f, rows[r][k]))
					}
				}
			}
		}
		r++
	}
	var out []Lin
	for _, row := range rows {
		zero := true
		for k := 0; k < n; k++ {
			if row[k].Sign() != 0 {
				zero = false
				break
			}
		}
		if !zero {
			continue
		}
		if l, ok := integral(row[n:], syms); ok && !l.IsConst() {
			out = append(out, l)
		}
	}
	return out
}

func clone(v []*big.Rat) []*big.Rat {
	w := make([]*big.Rat, len(v))
	for i := range v {
		w[i] = new(big.Rat).Set(v[i])
	}
	return w
}

func integral(v []*big.Rat, syms []Sym) (Lin, bool) {
	den := big.NewInt(1)
	for _, x := range v {
		g := new(big.Int).GCD(nil, nil, den, x.Denom())
		den.Mul(den, new(big.Int).Div(x.Denom(), g))
	}
	l := Lin{}
	for i, x := range v {
		y := new(big.Int).Mul(x.Num(), new(big.Int).Div(den, x.Denom()))
		if !y.IsInt64() || y.Int64() > soft || y.Int64() < -soft {
			return l, false
		}
		if i == len(v)-1 {
			l = l.AddK(y.Int64())
		} else if y.Sign() != 0 {
			l = l.AddMul(Var(syms[i]), y.Int64())
		}
	}
	return l, true
}

// ProjectSys returns the constraints (l <= 0) of s over the slots and the
// common symbols, with slot i standing for ls[i].
func ProjectSys(s *Sys, slot []Sym, ls []Lin, common func(Sym) bool) []Lin {
	vocab := map[Sym]bool{}
	for _, x := range slot {
		vocab[x] = true
	}
	e, i := projected(s, slot, ls, func(x Sym) bool { return x == 0 || vocab[x] || common(x) }, false)
	out := append([]Lin(nil), i...)
	for _, l := range e {
		out = append(out, l, l.Mul(-1))
	}
	return out
}

// Implies tells whether c, in which slot i stands for ls[i], implies all
// constraints of s (those between the slots included), and names one that it
// does not.
func Implies(c, s *Sys, slot []Sym, ls []Lin, common func(Sym) bool) (Lin, bool) {
	e, i, ok := renamed(s, slot, ls, common)
	if !ok {
		e, i = projected(s, slot, ls, func(x Sym) bool { return x == 0 || isIn(slot, x) || common(x) }, false)
	}
	for _, l := range i {
		if !c.Le0(l) {
			return l, false
		}
	}
	for _, l := range e {
		if !c.Le0(l) || !c.Le0(l.Mul(-1)) {
			return l, false
		}
	}
	return Lin{}, true
}

func isIn(ss []Sym, x Sym) bool {
	for _, s := range ss {
		if s == x {
			return true
		}
	}
	return false
}

// renamed gives the constraints of s in terms of the slots, if all symbols of s
// are common or names of slots.
func renamed(s *Sys, slot []Sym, ls []Lin, common func(Sym) bool) (eqs, ineqs []Lin, ok bool) {
	sub := map[Sym]Lin{}
	ok = true
	apply := func(l Lin) Lin {
		out := Const(l.K)
		for _, t := range l.T {
			if t.S == 0 || common(t.S) {
				out = out.Add(Lin{T: []Term{t}})
			} else if r, has := sub[t.S]; has {
				out = out.Add(r.Mul(t.C))
			} else {
				ok = false
			}
		}
		return out
	}
	for i, l := range ls {
		named := false
		for k, t := range l.T {
			if t.S == 0 || common(t.S) || t.C != 1 && t.C != -1 {
				continue
			}
			if _, has := sub[t.S]; has {
				continue
			}
			rest := Lin{K: l.K}
			for j, u := range l.T {
				if j != k {
					rest = rest.Add(Lin{T: []Term{u}})
				}
			}
			r := Var(slot[i]).Sub(apply(rest)).Mul(t.C)
			if !ok {
				return nil, nil, false
			}
			sub[t.S], named = r, true
			break
		}
		if !named {
			if d := Var(slot[i]).Sub(apply(l)); len(d.T) > 0 || d.K != 0 {
				eqs = append(eqs, d)
			}
		}
	}
	es, is := s.Constraints()
	for _, l := range es {
		if d := apply(l); len(d.T) > 0 || d.K != 0 {
			eqs = append(eqs, d)
		}
	}
	for _, l := range is {
		ineqs = append(ineqs, apply(l))
	}
	return eqs, ineqs, ok
}
