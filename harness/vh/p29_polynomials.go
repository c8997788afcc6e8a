package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

func init() {
	register("P29", "random polynomials and rational functions in up to three variables, with the exact polynomial arithmetic of the harness as the reference; distinct = distinct calls", func(c *Ctx) {
		sess := func() *Sess { return keptSess("p29", "") }
		// Any term that is not a number, a sum, a product or a power may take
		// the place of a variable.
		var kernel *T
		call := func(b *B, f string, args ...*T) (*T, string) {
			t := sfn(f, args...)
			if kernel != nil {
				t = swapT(t, sym("y"), kernel)
			}
			src := t.Src()
			b.Case(src)
			b.Seen(src)
			got := sess().EvalT(t)
			if kernel != nil {
				got = swapT(got, kernel, sym("y"))
			}
			return got, src
		}
		withKernel := func(r *rand.Rand) {
			kernel = nil
			if r.Intn(4) == 0 {
				kernel = pickT(r, []*T{fn("f", sym("a")), sfn("Sin", sym("t")), ex(fn("g", in(1)), sym("u"), str("s")), sfn("Subscript", sym("w"), in(0)), sym("y$1"), sfn("Log", sfn("Plus", in(1), sym("t")))})
			}
		}
		wantPoly := func(b *B, key, src string, got *T, want poly) {
			p, ok := polyOf(got)
			if !ok || !p.eq(want) {
				b.Fail(key, "%s gives %s; expected %s", src, clip(got.Src(), 300), clip(want.String(), 300))
			}
		}
		c.Batch("expand", c.N(32, 20), func(b *B) {
			g := polyGen{b.R}
			for i := 0; i < 12; i++ {
				n := 1 + b.R.Intn(3)
				t := g.term(4, n)
				withKernel(b.R)
				p, ok := polyOf(t)
				if !ok || len(p) > 60 || t.size() > 60 {
					continue
				}
				got, src := call(b, "Expand", t)
				wantPoly(b, "expand", src, got, p)
				if !expanded(got) {
					b.Fail("expanded", "%s gives %s, which is not expanded", src, clip(got.Src(), 300))
				}
				// All that is equal expands to the same.
				if again, _ := call(b, "Identity", p.T()); !same(got, again) {
					b.Fail("canonical", "%s gives %s, its terms added %s", src, clip(got.Src(), 300), clip(again.Src(), 300))
				}
				for _, f := range []string{"ExpandAll", "Factor", "FactorTerms", "Together", "Distribute", "Simplify", "ComplexExpand", "Apart"} {
					if v := sess().EvalT(t); f == "Distribute" && !v.hasHead("Times") && !v.hasHead("Plus") {
						continue
					}
					if (f == "Factor" || f == "Simplify") && (len(p) > 6 || b.R.Intn(4) > 0) {
						continue
					}
					got, src := call(b, f, t)
					wantPoly(b, strings.ToLower(f), src, got, p)
				}
				b.Count("polynomials", 1)
			}
		})
		// Like terms are collected, and powers of the same base, whatever the
		// kernels and wherever they stand.
		c.Batch("collect", c.N(64, 20), func(b *B) {
			kernel = nil
			all := []*T{sym("x"), sym("y"), sym("aa"), fn("a", in(0)), fn("a", in(1)), fn("f", sym("x"), sym("y")), fn("f", sym("x")), fn("f"), sfn("Sin", sym("x")), sfn("Sin", sym("t")),
				sfn("Subscript", sym("w"), in(0)), ex(fn("g", in(1)), str("s")), sfn("Log", sfn("Plus", in(1), sym("t"))), fn("h", sfn("Power", sym("x"), in(2))), sym("Z"), fn("b", str("s")), fn("a", rat(1, 2))}
			for i := 0; i < 60; i++ {
				ks := append([]*T{}, shuffleT(b.R, all)[:1+b.R.Intn(5)]...)
				id := map[string]int{}
				for j, k := range ks {
					id[k.Key()] = j
				}
				type mono [5]int
				want := map[mono]*big.Rat{}
				add := func(to map[mono]*big.Rat, m mono, c *big.Rat) {
					if v := to[m]; v != nil {
						c = rAdd(v, c)
					}
					to[m] = c
				}
				pool := []mono{}
				for n := 1 + b.R.Intn(5); n > 0; n-- {
					var m mono
					for j := range ks {
						if b.R.Intn(3) > 0 {
							m[j] = []int{1, 1, 1, 1, 2, 2, 3, -1, -2}[b.R.Intn(9)]
						}
					}
					pool = append(pool, m)
				}
				var ts []*T
				for n := 1 + b.R.Intn(9); n > 0; n-- {
					m := pool[b.R.Intn(len(pool))]
					k := big.NewRat(1, 1)
					var fs []*T
					if b.R.Intn(2) == 0 {
						k = randSmallRat(b.R)
						fs = append(fs, ratT(k))
					}
					add(want, m, k)
					for j, e := range m[:len(ks)] {
						for e != 0 {
							p := e
							if b.R.Intn(4) == 0 {
								p = b.R.Intn(7) - 3
							}
							e -= p
							if p == 1 {
								fs = append(fs, ks[j])
							} else if p != 0 {
								fs = append(fs, sfn("Power", ks[j], in(int64(p))))
							}
						}
					}
					fs = shuffleT(b.R, fs)
					switch len(fs) {
					case 0:
						ts = append(ts, in(1))
					case 1:
						ts = append(ts, fs[0])
					default:
						ts = append(ts, sfn("Times", fs...))
					}
				}
				for m, k := range want {
					if k.Sign() == 0 {
						delete(want, m)
					}
				}
				t := sfn("Plus", shuffleT(b.R, ts)...)
				got, src := call(b, "Identity", t)
				terms := []*T{got}
				if got.hasHead("Plus") {
					terms = got.args()
				}
				if same(got, in(0)) {
					terms = nil
				}
				seen := map[mono]*big.Rat{}
				bad := ""
				for _, u := range terms {
					fs := []*T{u}
					if u.hasHead("Times") {
						fs = u.args()
					}
					k := big.NewRat(1, 1)
					var m mono
					for n, f := range fs {
						if r := ratOf(f); r != nil && n == 0 {
							k = r
							continue
						}
						e := 1
						if f.hasHead("Power") && len(f.args()) == 2 && ratOf(f.args()[1]) != nil && ratOf(f.args()[1]).IsInt() {
							e = int(ratOf(f.args()[1]).Num().Int64())
							f = f.args()[0]
						}
						j, ok := id[f.Key()]
						if !ok || m[j] != 0 {
							bad = "the factor " + f.Src() + " of " + u.Src()
							continue
						}
						m[j] = e
					}
					if seen[m] != nil {
						bad = "a second like term " + u.Src()
					}
					seen[m] = k
				}
				if bad == "" && len(seen) != len(want) {
					bad = fmt.Sprintf("%d terms, expected %d", len(seen), len(want))
				}
				for m, k := range want {
					if bad == "" && (seen[m] == nil || seen[m].Cmp(k) != 0) {
						bad = fmt.Sprintf("no term with coefficient %s and exponents %v", k.RatString(), m)
					}
				}
				if bad != "" {
					b.Fail("collect", "%s gives %s, with %s", src, clip(got.Src(), 300), bad)
				}
				b.Count("collected", 1)
			}
		})
		// High powers of sums of few and of many terms.
		c.Batch("powers", c.N(20, 20), func(b *B) {
			g := polyGen{b.R}
			for i := 0; i < 3; i++ {
				p := g.flat(3, 2, 2+b.R.Intn(6))
				most := map[int]int{0: 9, 1: 40, 2: 40, 3: 12, 4: 8, 5: 6, 6: 5}[len(p)]
				if most == 0 {
					most = 4
				}
				n := 1 + b.R.Intn(most)
				if b.R.Intn(3) == 0 {
					n = most
				}
				t := sfn("Power", p.T(), in(int64(n)))
				got, src := call(b, "Expand", t)
				wantPoly(b, "power", src, got, p.pow(n))
				if !expanded(got) {
					b.Fail("expanded", "%s gives %s, which is not expanded", src, clip(got.Src(), 300))
				}
				b.Count("powers", 1)
			}
		})
		c.Batch("parts", c.N(32, 20), func(b *B) {
			g := polyGen{b.R}
			for i := 0; i < 10; i++ {
				n := 1 + b.R.Intn(3)
				v := b.R.Intn(n)
				var p poly
				var t *T
				if b.R.Intn(2) == 0 {
					p = g.flat(n, 1+b.R.Intn(4), b.R.Intn(7))
					t = p.T()
				} else {
					t = g.term(3, n)
					var ok bool
					if p, ok = polyOf(t); !ok || len(p) > 40 {
						continue
					}
				}
				x := sym(polyVars[v])
				withKernel(b.R)
				if got, src := call(b, "PolynomialQ", t, x); !same(got, boolT(true)) {
					b.Fail("polynomialq", "%s gives %s", src, got.Src())
				}
				deg := p.deg(v)
				want := in(int64(deg))
				if deg < 0 {
					want = sess().EvalT(sfn("Times", in(-1), sys("Infinity")))
				}
				if got, src := call(b, "Exponent", t, x); !same(got, want) {
					b.Fail("exponent", "%s gives %s; expected %s", src, got.Src(), want.Src())
				}
				for k := 0; k <= deg+1; k++ {
					got, src := call(b, "Coefficient", t, x, in(int64(k)))
					wantPoly(b, "coefficient", src, got, p.coeff(v, k))
					if k > 0 {
						got, src = call(b, "Coefficient", t, sfn("Power", x, in(int64(k))))
						wantPoly(b, "coefficient-form", src, got, p.coeff(v, k))
					}
				}
				l, src := call(b, "CoefficientList", t, x)
				if !l.hasHead("List") || len(l.args()) != deg+1 {
					b.Fail("coefficientlist", "%s gives %s; the degree is %d", src, clip(l.Src(), 300), deg)
				} else {
					for k, a := range l.args() {
						wantPoly(b, "coefficientlist", src+" part "+fmt.Sprint(k+1), a, p.coeff(v, k))
					}
				}
				vars := []*T{}
				for k := range polyVars {
					if p.deg(k) > 0 {
						vars = append(vars, sym(polyVars[k]))
					}
				}
				if got, src := call(b, "Variables", p.T()); !same(sess().EvalT(sfn("Sort", got)), list(vars...)) {
					b.Fail("variables", "%s gives %s", src, got.Src())
				}
				if !p.isZero() {
					got, src := call(b, "FactorTermsList", t)
					f := got.args()
					if !got.hasHead("List") || len(f) != 2 {
						b.Fail("factortermslist", "%s gives %s", src, got.Src())
					} else if c0 := ratOf(f[0]); c0 == nil {
						b.Fail("factortermslist", "%s gives %s", src, got.Src())
					} else {
						wantPoly(b, "factortermslist", src, f[1], p.scale(new(big.Rat).Inv(c0)))
						if q, ok := polyOf(f[1]); ok {
							g := new(big.Int)
							for _, c := range q {
								if !c.IsInt() {
									b.Fail("factorterms-content", "%s gives %s", src, got.Src())
								}
								g.GCD(nil, nil, g, new(big.Int).Abs(c.Num()))
							}
							if g.Cmp(big.NewInt(1)) != 0 {
								b.Fail("factorterms-content", "%s gives %s", src, got.Src())
							}
						}
					}
				}
				// What is not a polynomial
				bad := pickT(b.R, []*T{sfn("Power", x, in(-1)), sfn("Sin", x), sfn("Power", x, rat(1, 2)), sfn("Power", x, sym("n")), sfn("Power", in(2), x),
					fn("f", x), sfn("Power", sfn("Plus", x, in(1)), in(-2)), sfn("Power", sfn("Plus", x, in(1)), rat(1, 2))})
				// (a factor x might make it one)
				if got, src := call(b, "PolynomialQ", sfn("Plus", t, bad), x); !same(got, boolT(false)) {
					b.Fail("polynomialq-not", "%s gives %s", src, got.Src())
				}
				b.Count("polynomials", 1)
			}
		})
		c.Batch("divide", c.N(30, 20), func(b *B) {
			kernel = nil
			g := polyGen{b.R}
			for i := 0; i < 8; i++ {
				p, d := g.uni(b.R.Intn(9)), g.uni(b.R.Intn(5))
				switch b.R.Intn(12) {
				case 0, 1, 2:
					p = p.mul(d)
				case 3:
					p = g.uni(20 + b.R.Intn(12))
					d = g.uni(1 + b.R.Intn(2))
				case 4:
					p = polyC(g.rat())
				}
				q, r := p.divmod(d)
				x := sym("x")
				got, src := call(b, "PolynomialQuotient", p.T(), d.T(), x)
				wantPoly(b, "quotient", src, got, q)
				got, src = call(b, "PolynomialRemainder", p.T(), d.T(), x)
				wantPoly(b, "remainder", src, got, r)
				got, src = call(b, "PolynomialQuotientRemainder", p.T(), d.T(), x)
				if !got.hasHead("List") || len(got.args()) != 2 {
					b.Fail("quotient-remainder", "%s gives %s", src, got.Src())
				} else {
					wantPoly(b, "quotient-remainder", src, got.args()[0], q)
					wantPoly(b, "quotient-remainder", src, got.args()[1], r)
				}
				// In several variables the leading coefficient is 1.
				p, d = g.flat(2, 3, 5), g.flat(2, 2, 3)
				k := d.deg(0) + 1
				d.addTo([3]int{k}, big.NewRat(1, 1))
				got, src = call(b, "PolynomialQuotientRemainder", p.T(), d.T(), x)
				a := got.args()
				if !got.hasHead("List") || len(a) != 2 {
					b.Fail("multi-division", "%s gives %s", src, got.Src())
				} else {
					qq, ok1 := polyOf(a[0])
					rr, ok2 := polyOf(a[1])
					if !ok1 || !ok2 || !qq.mul(d).add(rr).eq(p) || rr.deg(0) >= k {
						b.Fail("multi-division", "%s gives %s", src, got.Src())
					}
				}
				b.Count("divisions", 1)
			}
		})
		c.Batch("gcd", c.N(24, 20), func(b *B) {
			kernel = nil
			g := polyGen{b.R}
			for i := 0; i < 6; i++ {
				f := g.uni(b.R.Intn(3))
				p, q := g.uni(b.R.Intn(4)).mul(f), g.uni(b.R.Intn(4)).mul(f)
				want := p.gcd(q)
				got, src := call(b, "PolynomialGCD", p.T(), q.T())
				h, ok := polyOf(got)
				if !ok || h.isZero() || h.deg(0) != want.deg(0) {
					b.Fail("gcd", "%s gives %s; expected a multiple of %s", src, got.Src(), want)
					continue
				}
				_, r1 := p.divmod(h)
				_, r2 := q.divmod(h)
				if !r1.isZero() || !r2.isZero() || h.deg(1)+h.deg(2) > 0 {
					b.Fail("gcd", "%s gives %s; expected a multiple of %s", src, got.Src(), want)
				}
				b.Count("gcds", 1)
			}
		})
		c.Batch("squarefree", c.N(24, 20), func(b *B) {
			kernel = nil
			g := polyGen{b.R}
			for i := 0; i < 4; i++ {
				p := g.uni(1 + b.R.Intn(2)).mul(g.uni(b.R.Intn(2)).pow(1 + b.R.Intn(3)))
				free := p.gcd(p.diff(0)).deg(0) <= 0
				got, src := call(b, "SquareFreeQ", p.T())
				if !same(got, boolT(free)) {
					b.Fail("squarefreeq", "%s gives %s", src, got.Src())
				}
				got, src = call(b, "FactorSquareFree", p.T())
				wantPoly(b, "factorsquarefree", src, got, p)
				fs := []*T{got}
				if got.hasHead("Times") {
					fs = got.args()
				}
				prod := polyC(big.NewRat(1, 1))
				for _, f := range fs {
					if f.hasHead("Power") {
						f = f.args()[0]
					}
					if q, ok := polyOf(f); ok && q.deg(0) > 0 {
						prod = prod.mul(q)
					}
				}
				if prod.deg(0) > 0 && prod.gcd(prod.diff(0)).deg(0) > 0 {
					b.Fail("squarefree-factors", "%s gives %s", src, got.Src())
				}
				b.Count("squarefree", 1)
			}
		})
		c.Batch("fractions", c.N(30, 20), func(b *B) {
			kernel = nil
			g := polyGen{b.R}
			for i := 0; i < 8; i++ {
				t := g.frac(2, 1+b.R.Intn(2))
				want, ok := ratFunOf(t)
				if !ok || want.d.isZero() || len(want.n)+len(want.d) > 40 || want.n.deg(0)+want.d.deg(0) > 12 {
					continue
				}
				for _, f := range []string{"Together", "Apart", "Expand", "ExpandAll", "Simplify", "Identity"} {
					if f == "Simplify" && b.R.Intn(4) > 0 {
						continue
					}
					got, src := call(b, f, t)
					v, ok := ratFunOf(got)
					if !ok || v.d.isZero() || !v.eq(want) {
						b.Fail("fraction-"+strings.ToLower(f), "%s gives %s, which is not equal to it", src, clip(got.Src(), 300))
						continue
					}
					n := sess().EvalT(sfn("Numerator", got))
					d := sess().EvalT(sfn("Denominator", got))
					nv, ok1 := ratFunOf(n)
					dv, ok2 := ratFunOf(d)
					if !ok1 || !ok2 || dv.n.isZero() || !(ratFun{nv.n.mul(dv.d), nv.d.mul(dv.n)}).eq(v) {
						b.Fail("numerator", "the numerator of %s is %s, its denominator %s", got.Src(), n.Src(), d.Src())
					}
					if f == "Together" {
						for _, x := range []*T{n, d} {
							if _, ok := polyOf(x); !ok {
								b.Fail("together", "%s gives %s: %s is not a polynomial", src, got.Src(), x.Src())
							}
						}
					}
				}
				b.Count("fractions", 1)
			}
		})
	})
}

// swapT puts y in the place of x everywhere.
func swapT(t, x, y *T) *T {
	if same(t, x) {
		return y
	}
	if t.K != kExpr {
		return t
	}
	a := make([]*T, len(t.A))
	for i := range t.A {
		a[i] = swapT(t.A[i], x, y)
	}
	return ex(a...)
}
