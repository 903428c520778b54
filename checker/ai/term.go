// Package ai is an abstract interpreter for Go programs in SSA form.  It
// computes, without running the program, an over-approximation of the states
// reachable at every point: integers are tracked by a relational domain
// (package num), references by allocation site and identity, slices by their
// position in a backing array and a symbolic description of its contents.
// Branches are kept apart (trace partitioning), loops are solved by fixpoint
// iteration with joins and widening at the loop heads.
package ai

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/num"
)

// Term is an interned symbolic value: an opaque reference, a string, a float.
type Term struct {
	ID   int
	Op   string
	S    string
	L    []num.Lin
	Args []*Term
	T    types.Type // static type, if known
}

var terms = map[string]*Term{}
var termList []*Term

// MkTerm interns a term.
func MkTerm(op, s string, args []*Term, ls ...num.Lin) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&b, "\x00%d", a.ID)
	}
	for _, l := range ls {
		b.WriteByte(1)
		b.WriteString(l.Key())
	}
	k := b.String()
	if t, ok := terms[k]; ok {
		return t
	}
	t := &Term{ID: len(termList) + 1, Op: op, S: s, Args: args, L: ls}
	terms[k] = t
	termList = append(termList, t)
	return t
}

var freshN int

// FreshTerm makes a new opaque term.
func FreshTerm(name string, typ types.Type) *Term {
	freshN++
	t := MkTerm("new", fmt.Sprintf("%s#%d", name, freshN), nil)
	t.T = typ
	return t
}

// Named makes an opaque term with a fixed name (not generalised by joins).
func Named(name string, typ types.Type) *Term {
	t := MkTerm("named", name, nil)
	if typ != nil {
		t.T = typ
	}
	return t
}

// StrConst is a constant string.
func StrConst(s string) *Term { return MkTerm("str", s, nil) }

// IsStrConst returns the constant.
func (t *Term) IsStrConst() (string, bool) {
	if t.Op == "str" {
		return t.S, true
	}
	return "", false
}

// Sentinel tells whether t is a distinguished value that differs from every
// other distinguished value (constants, sentinel errors).
func (t *Term) Sentinel() bool { return t.Op == "str" || t.Op == "sentinel" }

func (t *Term) String() string {
	switch t.Op {
	case "new", "named", "sentinel":
		return t.S
	case "str":
		return fmt.Sprintf("%q", t.S)
	}
	var p []string
	if t.S != "" {
		p = append(p, t.S)
	}
	for _, a := range t.Args {
		p = append(p, a.String())
	}
	for _, l := range t.L {
		p = append(p, l.String())
	}
	return t.Op + "(" + strings.Join(p, ", ") + ")"
}

// Form is a condition.
type Form struct {
	Op   string // "t", "f", "le" (L<=0), "eq" (L==0), "atom", "not", "and", "or"
	L    num.Lin
	A    *Term
	X, Y *Form
}

var (
	True  = &Form{Op: "t"}
	False = &Form{Op: "f"}
)

// B makes a constant condition.
func B(b bool) *Form {
	if b {
		return True
	}
	return False
}

// Le0 is l <= 0.
func Le0(l num.Lin) *Form {
	if l.IsConst() {
		return B(l.K <= 0)
	}
	return &Form{Op: "le", L: l}
}

// Le is a <= b.
func Le(a, b num.Lin) *Form { return Le0(a.Sub(b)) }

// Lt is a < b.
func Lt(a, b num.Lin) *Form { return Le0(a.Sub(b).AddK(1)) }

// EqL is a == b.
func EqL(a, b num.Lin) *Form {
	l := a.Sub(b)
	if l.IsConst() {
		return B(l.K == 0)
	}
	return &Form{Op: "eq", L: l}
}

// Atom is an opaque condition.
func Atom(t *Term) *Form { return &Form{Op: "atom", A: t} }

// Not negates.
func Not(f *Form) *Form {
	switch f.Op {
	case "t":
		return False
	case "f":
		return True
	case "not":
		return f.X
	case "le":
		return Le0(num.Const(1).Sub(f.L))
	}
	return &Form{Op: "not", X: f}
}

// And is the conjunction.
func And(a, b *Form) *Form {
	if a.Op == "f" || b.Op == "f" {
		return False
	}
	if a.Op == "t" {
		return b
	}
	if b.Op == "t" {
		return a
	}
	return &Form{Op: "and", X: a, Y: b}
}

// Or is the disjunction.
func Or(a, b *Form) *Form {
	if a.Op == "t" || b.Op == "t" {
		return True
	}
	if a.Op == "f" {
		return b
	}
	if b.Op == "f" {
		return a
	}
	return &Form{Op: "or", X: a, Y: b}
}

func (f *Form) String() string {
	switch f.Op {
	case "t":
		return "true"
	case "f":
		return "false"
	case "le":
		return f.L.String() + "<=0"
	case "eq":
		return f.L.String() + "==0"
	case "atom":
		return f.A.String()
	case "not":
		return "!(" + f.X.String() + ")"
	}
	return "(" + f.X.String() + " " + f.Op + " " + f.Y.String() + ")"
}

func isNilAtom(t *Term) *Term { return MkTerm("isnil", "", []*Term{t}) }

func eqAtom(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return MkTerm("eq", "", []*Term{a, b})
}

// IsNilAtom is the condition that t is nil.
func IsNilAtom(t *Term) *Term { return isNilAtom(t) }
