package num

import "testing"

func TestBasic(t *testing.T) {
	x, y, z := Fresh("x"), Fresh("y"), Fresh("z")
	s := New()
	s.AddLe(Var(x), Var(y))
	s.AddLe(Var(y), Var(z))
	if !s.Le(Var(x), Var(z)) || s.Le(Var(z), Var(x)) {
		t.Fatal("transitivity")
	}
	s.AddLe(Var(z), Var(x))
	if !s.Eq(Var(x), Var(y)) {
		t.Fatal("eq")
	}
	c := s.Clone()
	c.AddEq0(Var(x).AddK(-5))
	if !c.Eq(Var(z), Const(5)) || !c.Feasible() {
		t.Fatal("const")
	}
	c.AddLe(Var(y), Const(4))
	if c.Feasible() {
		t.Fatal("infeasible")
	}
	if !s.Lt(Const(1000000), Big) {
		t.Fatal("big")
	}
}

func TestJoin(t *testing.T) {
	// a: o=0,s=0,l=0  b: o<=s+l, o>=s, s>=0
	o, s, l := Fresh("o"), Fresh("s"), Fresh("l")
	a := New()
	b := New()
	b.AddLe(Var(s), Var(o))
	b.AddLe(Var(o), Var(s).Add(Var(l)))
	b.AddLe(Const(0), Var(s))
	p, q, r := Fresh("P"), Fresh("Q"), Fresh("R")
	j := Join(a, b, []Sym{p, q, r}, []Lin{Const(0), Const(0), Const(0)}, []Lin{Var(o), Var(s), Var(l)}, func(Sym) bool { return false }, false, false, nil, nil)
	t.Log(j)
	if !j.Le(Var(p), Var(q).Add(Var(r))) || !j.Le(Var(q), Var(p)) {
		t.Fatal("join")
	}
	// equalities: a: x=1,y=1 ; b: x=2,y=2 => x=y
	j = Join(New(), New(), []Sym{p, q}, []Lin{Const(1), Const(1)}, []Lin{Const(2), Const(2)}, func(Sym) bool { return false }, false, false, nil, nil)
	t.Log(j)
	if !j.Eq(Var(p), Var(q)) || !j.Le(Var(p), Const(2)) || !j.Le(Const(1), Var(p)) {
		t.Fatal("hull")
	}
}

func TestImpliesSeesConstants(t *testing.T) {
	a, b := New(), New()
	s, u := Fresh("s"), Fresh("u")
	none := func(Sym) bool { return false }
	c := Join(a, b, []Sym{s, u}, []Lin{Const(1), Const(5)}, []Lin{Const(2), Const(6)}, none, false, true, nil, nil)
	if _, ok := Implies(c, a, []Sym{s, u}, []Lin{Const(1), Const(5)}, none); ok {
		t.Error("lost s = 1")
	}
	x := Fresh("x")
	c = Join(a, b, []Sym{s, u}, []Lin{Var(x), Var(x)}, []Lin{Const(2), Const(6)}, none, false, true, nil, nil)
	if _, ok := Implies(c, a, []Sym{s, u}, []Lin{Var(x), Var(x)}, none); ok {
		t.Error("lost s = u")
	}
}
