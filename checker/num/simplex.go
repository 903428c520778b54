package num

import (
	"math/big"
	"math/bits"
)

// The feasibility test: a general simplex over the rationals (Bland's rule)
// for constraints sum(c*x) <= b with free variables.  Arithmetic is done on
// 64-bit fractions and redone on big.Rat if one of them overflows.

type field[T any] interface {
	add(a, b T) T
	mul(a, b T) T
	neg(a T) T
	inv(a T) T
	sign(a T) int
	cmp(a, b T) int
	from(x int64) T
	float(a T) float64
}

type frac struct{ n, d int64 }

type fracField struct{}

func mk(hiN bool, n, d int64) frac { return frac{n, d} }

func mul64(a, b int64) int64 {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		panic(Overflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func add64(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(Overflow{})
	}
	if c > 1<<62 || c < -(1<<62) {
		panic(Overflow{})
	}
	return c
}

func norm(n, d int64) frac {
	if n == 0 {
		return frac{0, 1}
	}
	if d == 1 {
		return frac{n, 1}
	}
	g := gcd(n, d)
	n, d = n/g, d/g
	if d < 0 {
		n, d = -n, -d
	}
	return frac{n, d}
}

func (fracField) add(a, b frac) frac {
	if a.d == 1 && b.d == 1 {
		return frac{add64(a.n, b.n), 1}
	}
	return norm(add64(mul64(a.n, b.d), mul64(b.n, a.d)), mul64(a.d, b.d))
}
func (fracField) mul(a, b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	return norm(mul64(a.n, b.n), mul64(a.d, b.d))
}
func (fracField) neg(a frac) frac { return frac{-a.n, a.d} }
func (fracField) inv(a frac) frac {
	if a.n < 0 {
		return frac{-a.d, -a.n}
	}
	return frac{a.d, a.n}
}
func (fracField) sign(a frac) int {
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}
func (f fracField) cmp(a, b frac) int {
	if a.d == b.d {
		switch {
		case a.n < b.n:
			return -1
		case a.n > b.n:
			return 1
		}
		return 0
	}
	x, y := mul64(a.n, b.d), mul64(b.n, a.d)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}
func (fracField) from(x int64) frac    { return frac{x, 1} }
func (fracField) float(a frac) float64 { return float64(a.n) / float64(a.d) }

type ratField struct{}

func (ratField) add(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func (ratField) mul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func (ratField) neg(a *big.Rat) *big.Rat    { return new(big.Rat).Neg(a) }
func (ratField) inv(a *big.Rat) *big.Rat    { return new(big.Rat).Inv(a) }
func (ratField) sign(a *big.Rat) int        { return a.Sign() }
func (ratField) cmp(a, b *big.Rat) int      { return a.Cmp(b) }
func (ratField) from(x int64) *big.Rat      { return big.NewRat(x, 1) }
func (ratField) float(a *big.Rat) float64   { f, _ := a.Float64(); return f }

// feasible decides whether all cs (each meaning c <= 0) hold together, and may
// return a solution.
func feasible(cs []Lin) (bool, map[Sym]frac) {
	ok, bad, p := tryFrac(cs)
	if bad {
		ok, _ = simplex[*big.Rat](ratField{}, cs)
		return ok, nil
	}
	return ok, p
}

func tryFrac(cs []Lin) (ok, bad bool, p map[Sym]frac) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Overflow); is {
				bad = true
				return
			}
			panic(r)
		}
	}()
	ok, p = simplexFrac(cs)
	return ok, false, p
}

func simplex[T any](f field[T], cs []Lin) (bool, map[Sym]T) {
	idx := map[Sym]int{}
	n := 0
	for _, c := range cs {
		for _, t := range c.T {
			if _, ok := idx[t.S]; !ok {
				idx[t.S] = n
				n++
			}
		}
	}
	m := len(cs)
	// Variables 0..n-1: free.  n..n+m-1: slack row i, upper bound -K.
	zero := f.from(0)
	nz := make([]int, n)
	row := make([][]T, m) // basic var = sum row[j]*nonbasic[j]
	basic := make([]int, m)
	non := make([]int, n)
	val := make([]T, n+m)
	for i := range val {
		val[i] = zero
	}
	for j := range non {
		non[j] = j
	}
	ub := make([]T, m)
	cells := make([]T, m*n)
	for i, c := range cs {
		row[i] = cells[i*n : (i+1)*n : (i+1)*n]
		for j := range row[i] {
			row[i][j] = zero
		}
		for _, t := range c.T {
			row[i][idx[t.S]] = f.from(t.C)
		}
		basic[i] = n + i
		ub[i] = f.from(-c.K)
	}
	canUp := func(v int) bool { return v < n || f.cmp(val[v], ub[v-n]) < 0 }
	for iter := 0; ; iter++ {
		if iter > 5000 {
			panic("simplex: no termination")
		}
		// violated basic variable with the smallest index
		bi := -1
		for i, v := range basic {
			if v >= n && f.cmp(val[v], ub[v-n]) > 0 {
				if bi < 0 || v < basic[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			p := make(map[Sym]T, n)
			for s, i := range idx {
				p[s] = val[i]
			}
			return true, p
		}
		// need to decrease basic[bi]
		bj := -1
		for j, v := range non {
			s := f.sign(row[bi][j])
			if s == 0 {
				continue
			}
			// decreasing: if coefficient > 0 decrease v (always possible:
			// no lower bounds); if < 0 increase v.
			if s > 0 || canUp(v) {
				if bj < 0 || v < non[bj] {
					bj = j
				}
			}
		}
		if bj < 0 {
			return false, nil
		}
		// pivot and set basic[bi] to its bound
		xi, xj := basic[bi], non[bj]
		a := row[bi][bj]
		theta := f.mul(f.add(ub[xi-n], f.neg(val[xi])), f.inv(a))
		val[xi] = ub[xi-n]
		val[xj] = f.add(val[xj], theta)
		for i, v := range basic {
			if i != bi && f.sign(row[i][bj]) != 0 {
				val[v] = f.add(val[v], f.mul(row[i][bj], theta))
			}
		}
		// xj = (xi - sum_{k!=bj} row[bi][k]*non[k]) / a
		ia := f.inv(a)
		nr := row[bi]
		set := nz[:0]
		for k := range nr {
			if k == bj {
				nr[k] = ia
			} else if f.sign(nr[k]) != 0 {
				nr[k] = f.neg(f.mul(nr[k], ia))
				set = append(set, k)
			}
		}
		for i := range row {
			if i == bi {
				continue
			}
			c := row[i][bj]
			if f.sign(c) == 0 {
				continue
			}
			ri := row[i]
			for _, k := range set {
				ri[k] = f.add(ri[k], f.mul(c, nr[k]))
			}
			ri[bj] = f.mul(c, ia)
		}
		basic[bi], non[bj] = xj, xi
	}
}

// simplexFrac is simplex on fractions, spelled out because it is where the time
// goes.
func simplexFrac(cs []Lin) (bool, map[Sym]frac) {
	idx := map[Sym]int{}
	n := 0
	for _, c := range cs {
		for _, t := range c.T {
			if _, ok := idx[t.S]; !ok {
				idx[t.S] = n
				n++
			}
		}
	}
	m := len(cs)
	// Variables 0..n-1: free.  n..n+m-1: slack row i, upper bound -K.
	zero := frac{0, 1}
	nz := make([]int, n)
	row := make([][]frac, m) // basic var = sum row[j]*nonbasic[j]
	basic := make([]int, m)
	non := make([]int, n)
	val := make([]frac, n+m)
	for i := range val {
		val[i] = zero
	}
	for j := range non {
		non[j] = j
	}
	ub := make([]frac, m)
	cells := make([]frac, m*n)
	for i, c := range cs {
		row[i] = cells[i*n : (i+1)*n : (i+1)*n]
		for j := range row[i] {
			row[i][j] = zero
		}
		for _, t := range c.T {
			row[i][idx[t.S]] = frac{t.C, 1}
		}
		basic[i] = n + i
		ub[i] = frac{-c.K, 1}
	}
	canUp := func(v int) bool { return v < n || fcmp(val[v], ub[v-n]) < 0 }
	for iter := 0; ; iter++ {
		if iter > 5000 {
			panic("simplex: no termination")
		}
		// violated basic variable with the smallest index
		bi := -1
		for i, v := range basic {
			if v >= n && fcmp(val[v], ub[v-n]) > 0 {
				if bi < 0 || v < basic[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			p := make(map[Sym]frac, n)
			for s, i := range idx {
				p[s] = val[i]
			}
			return true, p
		}
		// need to decrease basic[bi]
		bj := -1
		for j, v := range non {
			s := fsign(row[bi][j])
			if s == 0 {
				continue
			}
			// decreasing: if coefficient > 0 decrease v (always possible:
			// no lower bounds); if < 0 increase v.
			if s > 0 || canUp(v) {
				if bj < 0 || v < non[bj] {
					bj = j
				}
			}
		}
		if bj < 0 {
			return false, nil
		}
		// pivot and set basic[bi] to its bound
		xi, xj := basic[bi], non[bj]
		a := row[bi][bj]
		theta := fmul(fadd(ub[xi-n], fneg(val[xi])), finv(a))
		val[xi] = ub[xi-n]
		val[xj] = fadd(val[xj], theta)
		for i, v := range basic {
			if i != bi && fsign(row[i][bj]) != 0 {
				val[v] = fadd(val[v], fmul(row[i][bj], theta))
			}
		}
		// xj = (xi - sum_{k!=bj} row[bi][k]*non[k]) / a
		ia := finv(a)
		nr := row[bi]
		set := nz[:0]
		for k := range nr {
			if k == bj {
				nr[k] = ia
			} else if fsign(nr[k]) != 0 {
				nr[k] = fneg(fmul(nr[k], ia))
				set = append(set, k)
			}
		}
		for i := range row {
			if i == bi {
				continue
			}
			c := row[i][bj]
			if fsign(c) == 0 {
				continue
			}
			ri := row[i]
			for _, k := range set {
				ri[k] = fadd(ri[k], fmul(c, nr[k]))
			}
			ri[bj] = fmul(c, ia)
		}
		basic[bi], non[bj] = xj, xi
	}
}

func small(a int64) bool { return a+1<<30 >= 0 && a < 1<<30 }

func fadd(a, b frac) frac {
	if a.d == 1 && b.d == 1 {
		return frac{add64(a.n, b.n), 1}
	}
	return fracField{}.add(a, b)
}

func fmul(a, b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	if a.d == 1 && b.d == 1 && small(a.n) && small(b.n) {
		return frac{a.n * b.n, 1}
	}
	return fracField{}.mul(a, b)
}

func fneg(a frac) frac { return frac{-a.n, a.d} }

func finv(a frac) frac { return fracField{}.inv(a) }

func fsign(a frac) int64 { return a.n }

func fcmp(a, b frac) int {
	if a.d == 1 && b.d == 1 {
		if a.n < b.n {
			return -1
		}
		if a.n > b.n {
			return 1
		}
		return 0
	}
	return fracField{}.cmp(a, b)
}
