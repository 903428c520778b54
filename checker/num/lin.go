// Package num implements the numeric part of the abstract domain: linear
// expressions over symbols and conjunctions of linear equalities and
// inequalities over them, with entailment, projection and join.
package num

import (
	"fmt"
	"sort"
	"strings"
)

// Sym is a symbolic integer.  Sym 0 is BIG (see Big).
type Sym int32

// Term is a coefficient times a symbol.
type Term struct {
	S Sym
	C int64
}

// Lin is K + sum of T, with T sorted by symbol and without zero coefficients.
// Lins are immutable.
type Lin struct {
	K int64
	T []Term
}

// Overflow is thrown when coefficients leave the supported range.
type Overflow struct{}

const lim = int64(1) << 50

// soft bounds the numbers in stored constraints, so that arithmetic on them
// stays below lim; constraints beyond it are dropped (which is sound).
const soft = int64(1) << 40

// bigMin is what 2^62 is known to exceed.
const bigMin = int64(1) << 36

func (l Lin) huge() bool {
	if l.K > soft || l.K < -soft {
		return true
	}
	for _, t := range l.T {
		if t.C > soft || t.C < -soft {
			return true
		}
	}
	return false
}

// guard runs f and tells whether it stayed in range.
func guard(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(Overflow); !is {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

func ck(x int64) int64 {
	if x > lim || x < -lim {
		panic(Overflow{})
	}
	return x
}

// Const makes a constant.
func Const(k int64) Lin { return Lin{K: ck(k)} }

// Var makes a single symbol.
func Var(s Sym) Lin { return Lin{T: []Term{{s, 1}}} }

// Big stands for 2^62: an unspecified large number, so that bounds of machine
// integers can be written with small coefficients (int64 is [-2*Big, 2*Big-1]).
var Big = Var(0)

// IsConst tells whether l is a constant.
func (l Lin) IsConst() bool { return len(l.T) == 0 }

// Is tells whether l is the constant k.
func (l Lin) Is(k int64) bool { return len(l.T) == 0 && l.K == k }

// Add returns l+m.
func (l Lin) Add(m Lin) Lin { return l.AddMul(m, 1) }

// Sub returns l-m.
func (l Lin) Sub(m Lin) Lin { return l.AddMul(m, -1) }

// AddK returns l+k.
func (l Lin) AddK(k int64) Lin { return Lin{K: ck(l.K + k), T: l.T} }

// Mul returns l*c.
func (l Lin) Mul(c int64) Lin {
	if c == 0 {
		return Lin{}
	}
	if c == 1 {
		return l
	}
	r := Lin{K: ckmul(l.K, c), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, ckmul(t.C, c)}
	}
	return r
}

func ckmul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	p := a * b
	if p/b != a {
		panic(Overflow{})
	}
	return ck(p)
}

// AddMul returns l + c*m.
func (l Lin) AddMul(m Lin, c int64) Lin {
	if c == 0 {
		return l
	}
	r := Lin{K: ck(l.K + ckmul(m.K, c))}
	if len(m.T) == 0 {
		r.T = l.T
		return r
	}
	r.T = make([]Term, 0, len(l.T)+len(m.T))
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].S < m.T[j].S):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].S < l.T[i].S:
			r.T = append(r.T, Term{m.T[j].S, ckmul(m.T[j].C, c)})
			j++
		default:
			x := ck(l.T[i].C + ckmul(m.T[j].C, c))
			if x != 0 {
				r.T = append(r.T, Term{l.T[i].S, x})
			}
			i++
			j++
		}
	}
	return r
}

// Coef returns the coefficient of s.
func (l Lin) Coef(s Sym) int64 {
	i := sort.Search(len(l.T), func(i int) bool { return l.T[i].S >= s })
	if i < len(l.T) && l.T[i].S == s {
		return l.T[i].C
	}
	return 0
}

// Subst replaces s by d.
func (l Lin) Subst(s Sym, d Lin) Lin {
	c := l.Coef(s)
	if c == 0 {
		return l
	}
	return l.AddMul(Var(s), -c).AddMul(d, c)
}

// Equal is syntactic equality.
func (l Lin) Equal(m Lin) bool {
	if l.K != m.K || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

// SameT tells whether l and m differ at most in the constant.
func (l Lin) SameT(m Lin) bool { return Lin{T: l.T}.Equal(Lin{T: m.T}) }

// Key is a canonical text.
func (l Lin) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.K)
	for _, t := range l.T {
		fmt.Fprintf(&b, "|%d*%d", t.C, t.S)
	}
	return b.String()
}

// Names is used for printing.
var Names = map[Sym]string{0: "2^62"}

func (s Sym) String() string {
	if n, ok := Names[s]; ok {
		return n
	}
	return fmt.Sprintf("$%d", int32(s))
}

func (l Lin) String() string {
	if l.IsConst() {
		return fmt.Sprint(l.K)
	}
	var b strings.Builder
	for i, t := range l.T {
		c := t.C
		switch {
		case c < 0:
			b.WriteString("-")
			c = -c
		case i > 0:
			b.WriteString("+")
		}
		if c != 1 {
			fmt.Fprintf(&b, "%d*", c)
		}
		b.WriteString(t.S.String())
	}
	if l.K != 0 {
		fmt.Fprintf(&b, "%+d", l.K)
	}
	return b.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides l (meaning l <= 0 over the integers) by the gcd of its
// coefficients, rounding the constant up.
func (l Lin) tighten() Lin {
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	if g <= 1 {
		return l
	}
	r := Lin{T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, t.C / g}
	}
	k := l.K / g
	if l.K > 0 && l.K%g != 0 {
		k++
	}
	r.K = k
	return r
}
