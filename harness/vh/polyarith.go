package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
)

// A polynomial over the rationals in x, y, z.
type poly map[[3]int]*big.Rat

var polyVars = []string{"x", "y", "z"}

func polyC(c *big.Rat) poly {
	p := poly{}
	p.addTo([3]int{}, c)
	return p
}

func polyV(i int) poly {
	e := [3]int{}
	e[i] = 1
	return poly{e: big.NewRat(1, 1)}
}

func (p poly) addTo(e [3]int, c *big.Rat) {
	if v := p[e]; v != nil {
		c = rAdd(v, c)
	}
	if c.Sign() == 0 {
		delete(p, e)
	} else {
		p[e] = c
	}
}

func (p poly) add(q poly) poly {
	r := poly{}
	for e, c := range p {
		r.addTo(e, c)
	}
	for e, c := range q {
		r.addTo(e, c)
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for e, c := range p {
		for f, d := range q {
			r.addTo([3]int{e[0] + f[0], e[1] + f[1], e[2] + f[2]}, rMul(c, d))
		}
	}
	return r
}

func (p poly) scale(c *big.Rat) poly { return p.mul(polyC(c)) }
func (p poly) neg() poly             { return p.scale(big.NewRat(-1, 1)) }

func (p poly) pow(n int) poly {
	r := polyC(big.NewRat(1, 1))
	for ; n > 0; n-- {
		r = r.mul(p)
	}
	return r
}

func (p poly) isZero() bool { return len(p) == 0 }

func (p poly) eq(q poly) bool { return p.add(q.neg()).isZero() }

// deg is the degree in one variable, -1 for zero.
func (p poly) deg(v int) int {
	d := -1
	for e := range p {
		if e[v] > d {
			d = e[v]
		}
	}
	return d
}

// coeff is the coefficient of a power of one variable.
func (p poly) coeff(v, n int) poly {
	r := poly{}
	for e, c := range p {
		if e[v] == n {
			e[v] = 0
			r.addTo(e, c)
		}
	}
	return r
}

func (p poly) keys() [][3]int {
	l := [][3]int{}
	for e := range p {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

// T is the expanded term.
func (p poly) T() *T {
	ts := []*T{}
	for _, e := range p.keys() {
		fs := []*T{ratT(p[e])}
		for i, n := range e {
			if n > 0 {
				fs = append(fs, sfn("Power", sym(polyVars[i]), in(int64(n))))
			}
		}
		ts = append(ts, sfn("Times", fs...))
	}
	return sfn("Plus", ts...)
}

func (p poly) String() string { return p.T().Src() }

// ratFun is a quotient of polynomials.
type ratFun struct{ n, d poly }

func (a ratFun) eq(b ratFun) bool { return a.n.mul(b.d).eq(b.n.mul(a.d)) }

// ratFunOf reads a term of + * ^ and exact real numbers.
func ratFunOf(t *T) (ratFun, bool) {
	one := polyC(big.NewRat(1, 1))
	if r := ratOf(t); r != nil {
		return ratFun{polyC(r), one}, true
	}
	for i, v := range polyVars {
		if t.K == kSym && t.S == "Global`"+v {
			return ratFun{polyV(i), one}, true
		}
	}
	switch {
	case t.hasHead("Plus"):
		r := ratFun{poly{}, one}
		for _, a := range t.args() {
			x, ok := ratFunOf(a)
			if !ok {
				return r, false
			}
			if x.d.eq(r.d) {
				r.n = r.n.add(x.n)
			} else {
				r = ratFun{r.n.mul(x.d).add(x.n.mul(r.d)), r.d.mul(x.d)}
			}
		}
		return r, true
	case t.hasHead("Times"):
		r := ratFun{one, one}
		for _, a := range t.args() {
			x, ok := ratFunOf(a)
			if !ok {
				return r, false
			}
			r = ratFun{r.n.mul(x.n), r.d.mul(x.d)}
		}
		return r, true
	case t.hasHead("Power") && len(t.args()) == 2 && t.args()[1].K == kInt:
		x, ok := ratFunOf(t.args()[0])
		n := t.args()[1].I
		if !ok || !n.IsInt64() || (len(x.n) > 1 || len(x.d) > 1) && n.CmpAbs(big.NewInt(40)) > 0 || n.CmpAbs(big.NewInt(200)) > 0 || x.n.isZero() && n.Sign() <= 0 {
			return x, false
		}
		if k := int(n.Int64()); k < 0 {
			return ratFun{x.d.pow(-k), x.n.pow(-k)}, !x.n.isZero()
		} else {
			return ratFun{x.n.pow(k), x.d.pow(k)}, true
		}
	}
	return ratFun{}, false
}

// polyOf reads a polynomial.
func polyOf(t *T) (poly, bool) {
	f, ok := ratFunOf(t)
	if !ok {
		return nil, false
	}
	if len(f.d) != 1 || f.d[[3]int{}] == nil {
		return nil, false
	}
	return f.n.scale(new(big.Rat).Inv(f.d[[3]int{}])), true
}

// expanded says whether a term is a sum of different monomials with
// coefficients.
func expanded(t *T) bool {
	ts := []*T{t}
	if t.hasHead("Plus") {
		ts = t.args()
	}
	seen := map[[3]int]bool{}
	for _, m := range ts {
		fs := []*T{m}
		if m.hasHead("Times") {
			fs = m.args()
		}
		for _, f := range fs {
			if f.hasHead("Power") {
				f = f.args()[0]
			}
			if !f.isAtom() {
				return false
			}
		}
		p, ok := polyOf(m)
		if !ok || len(p) > 1 {
			return false
		}
		for e := range p {
			if seen[e] {
				return false
			}
			seen[e] = true
		}
	}
	return true
}

// divmod divides polynomials in x alone.
func (p poly) divmod(d poly) (q, r poly) {
	q, r = poly{}, p
	n := d.deg(0)
	lead := d[[3]int{n}]
	for r.deg(0) >= n {
		k := r.deg(0)
		m := poly{[3]int{k - n}: new(big.Rat).Quo(r[[3]int{k}], lead)}
		q = q.add(m)
		r = r.add(m.mul(d).neg())
	}
	return
}

func (p poly) gcd(q poly) poly {
	for !q.isZero() {
		_, r := p.divmod(q)
		p, q = q, r
	}
	return p
}

func (p poly) diff(v int) poly {
	r := poly{}
	for e, c := range p {
		if e[v] > 0 {
			k := int64(e[v])
			e[v]--
			r.addTo(e, rMul(c, big.NewRat(k, 1)))
		}
	}
	return r
}

type polyGen struct{ r *rand.Rand }

func (g polyGen) rat() *big.Rat {
	switch g.r.Intn(6) {
	case 0:
		return randSmallRat(g.r)
	case 1:
		return big.NewRat(int64(g.r.Intn(1000)-500), 1)
	}
	return big.NewRat(int64(g.r.Intn(13)-6), 1)
}

// flat is a random polynomial in the first n variables.
func (g polyGen) flat(n, deg, terms int) poly {
	p := poly{}
	for i := 0; i < terms; i++ {
		e := [3]int{}
		for k := 0; k < n; k++ {
			e[k] = g.r.Intn(deg + 1)
		}
		p.addTo(e, g.rat())
	}
	return p
}

// uni is a polynomial in x of a given degree.
func (g polyGen) uni(deg int) poly {
	p := g.flat(1, deg, 1+g.r.Intn(deg+1))
	c := g.rat()
	if c.Sign() == 0 {
		c = big.NewRat(1, 1)
	}
	p[[3]int{deg}] = c
	return p
}

// term is a term of + * ^ in the first n variables, of bounded degree.
func (g polyGen) term(d, n int) *T {
	r := g.r
	if d <= 0 || r.Intn(6) == 0 {
		if r.Intn(3) == 0 {
			return ratT(g.rat())
		}
		return sym(polyVars[r.Intn(n)])
	}
	switch r.Intn(5) {
	case 0, 1:
		return sfn("Plus", g.term(d-1, n), g.term(d-1, n), g.term(d-2, n))
	case 2:
		return sfn("Power", g.term(d-2, n), in(int64(r.Intn(4))))
	}
	return sfn("Times", g.term(d-1, n), g.term(d-2, n))
}

// frac is a rational function.
func (g polyGen) frac(d, n int) *T {
	r := g.r
	if d <= 0 {
		return g.term(1, n)
	}
	switch r.Intn(5) {
	case 0, 1:
		return sfn("Plus", g.frac(d-1, n), g.frac(d-1, n))
	case 2:
		return sfn("Times", g.frac(d-1, n), g.frac(d-1, n))
	case 3:
		return sfn("Power", g.frac(d-1, n), in(int64(r.Intn(5)-2)))
	}
	return sfn("Times", g.term(2, n), sfn("Power", g.term(2, n), in(-1)))
}
