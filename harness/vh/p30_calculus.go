package main

import (
	"math"
	"math/big"
	"math/cmplx"
	"strings"
)

// diffT is the derivative by x by the textbook; nil where it is not defined.
func diffT(t *T, x *T) *T {
	if same(t, x) {
		return in(1)
	}
	if t.K != kExpr {
		return in(0)
	}
	as := t.args()
	var ds []*T
	for _, a := range as {
		d := diffT(a, x)
		if d == nil {
			return nil
		}
		ds = append(ds, d)
	}
	times := func(a ...*T) *T { return sfn("Times", a...) }
	if t.hasHead("Plus") {
		return sfn("Plus", ds...)
	}
	if t.hasHead("Times") {
		var sum []*T
		for i := range as {
			fs := append([]*T{}, as...)
			fs[i] = ds[i]
			sum = append(sum, times(fs...))
		}
		return sfn("Plus", sum...)
	}
	if t.hasHead("Power") && len(as) == 2 {
		if same(ds[1], in(0)) {
			return times(as[1], sfn("Power", as[0], sfn("Plus", as[1], in(-1))), ds[0])
		}
		return times(t, sfn("Plus", times(ds[1], sfn("Log", as[0])), times(as[1], ds[0], sfn("Power", as[0], in(-1)))))
	}
	if len(as) != 1 {
		return nil
	}
	a, d := as[0], ds[0]
	inv := func(t *T, n int64) *T { return sfn("Power", t, in(n)) }
	switch {
	case t.hasHead("Sin"):
		return times(d, sfn("Cos", a))
	case t.hasHead("Cos"):
		return times(in(-1), d, sfn("Sin", a))
	case t.hasHead("Tan"):
		return times(d, inv(sfn("Cos", a), -2))
	case t.hasHead("Cot"):
		return times(in(-1), d, inv(sfn("Sin", a), -2))
	case t.hasHead("Log"):
		return times(d, inv(a, -1))
	case t.hasHead("Exp"):
		return times(d, t)
	case t.hasHead("Sqrt"):
		return times(rat(1, 2), d, sfn("Power", a, rat(-1, 2)))
	case t.hasHead("Sec"):
		return times(d, sfn("Sec", a), sfn("Tan", a))
	case t.hasHead("Csc"):
		return times(in(-1), d, sfn("Csc", a), sfn("Cot", a))
	case t.hasHead("D"):
		return nil
	}
	return nil
}

// undone replaces the calls of D that were left by what they should be.
func undone(t *T) *T {
	if t.hasHead("D") && len(t.args()) == 2 {
		d := diffT(undone(t.args()[0]), t.args()[1])
		if d == nil {
			return t
		}
		return d
	}
	if t.K != kExpr {
		return t
	}
	a := make([]*T, len(t.A))
	for i := range t.A {
		a[i] = undone(t.A[i])
	}
	return ex(a...)
}

// solValues reads the values of x from the result of Solve for x.
func solValues(t *T, x *T) (vs []*T, ok bool) {
	if !t.hasHead("List") {
		return nil, false
	}
	for _, s := range t.args() {
		if !s.hasHead("List") || len(s.args()) != 1 || !s.args()[0].hasHead("Rule") || !same(s.args()[0].args()[0], x) {
			return nil, false
		}
		vs = append(vs, s.args()[0].args()[1])
	}
	return vs, true
}

// matchRoots pairs found with wanted roots.
func matchRoots(got, want []complex128, tol float64) bool {
	if len(got) != len(want) {
		return false
	}
	used := make([]bool, len(want))
	for _, g := range got {
		best, at := math.Inf(1), -1
		for i, w := range want {
			if d := cmplx.Abs(g - w); !used[i] && d < best {
				best, at = d, i
			}
		}
		if at < 0 || !(best <= tol*(1+cmplx.Abs(want[at]))) {
			return false
		}
		used[at] = true
	}
	return true
}

// specialForm says whether the general formula for quartic equations divides
// zero by zero for these roots: three are the same, or the constant of the
// resolvent is zero.
func specialForm(roots []complex128) bool {
	n := len(roots)
	if n != 4 {
		return false
	}
	mean := complex128(0)
	for _, r := range roots {
		mean += r / complex(float64(n), 0)
	}
	// The elementary symmetric polynomials of the roots less their mean.
	e := make([]complex128, n+1)
	e[0] = 1
	for _, r := range roots {
		for k := n; k > 0; k-- {
			e[k] += e[k-1] * (r - mean)
		}
	}
	return cmplx.Abs(e[2]*e[2]+12*e[4]) < 1e-6
}

// condHolds evaluates the condition of a ConditionalExpression; known is false
// when it is too near to say.
func condHolds(t *T, env map[string]complex128) (holds, known bool) {
	switch {
	case same(t, boolT(true)):
		return true, true
	case t.hasHead("Element"):
		return true, true
	case t.hasHead("And"), t.hasHead("Or"):
		and := t.hasHead("And")
		known = true
		for _, a := range t.args() {
			h, k := condHolds(a, env)
			if k && h != and {
				return h, true
			}
			known = known && k
		}
		return and, known
	case t.hasHead("Inequality") && len(t.args())%2 == 1:
		as := t.args()
		known = true
		for i := 0; i+2 < len(as); i += 2 {
			h, k := condHolds(ex(as[i+1], as[i], as[i+2]), env)
			if k && !h {
				return false, true
			}
			known = known && k
		}
		return true, known
	}
	as := t.args()
	if len(as) < 2 {
		return false, false
	}
	known = true
	for i := 0; i+1 < len(as); i++ {
		a, ok1 := numEval(as[i], env)
		b, ok2 := numEval(as[i+1], env)
		if !ok1 || !ok2 || cmplx.Abs(a-b) < 1e-9*(1+cmplx.Abs(a)) || math.Abs(imag(a)) > 1e-12 || math.Abs(imag(b)) > 1e-12 {
			known = false
			continue
		}
		h := false
		switch {
		case t.hasHead("Less"), t.hasHead("LessEqual"):
			h = real(a) < real(b)
		case t.hasHead("Greater"), t.hasHead("GreaterEqual"):
			h = real(a) > real(b)
		case t.hasHead("Equal"):
			h = false
		default:
			return false, false
		}
		if !h {
			return false, true
		}
	}
	return true, known
}

func init() {
	register("P30", "random terms with elementary functions differentiated, and random equations solved, with the textbook derivative and the known roots of the harness as the reference, compared numerically with error bounds; distinct = distinct calls", func(c *Ctx) {
		sess := func() *Sess { return keptSess("p30", "") }
		eval := func(b *B, t *T) *T {
			b.Case(t.Src())
			return sess().EvalT(t)
		}
		call := func(b *B, t *T) (*T, string) {
			src := t.Src()
			b.Case(src)
			b.Seen(src)
			return sess().EvalT(t), src
		}
		c.Batch("derivatives", c.N(60, 20), func(b *B) {
			r := b.R
			g := calcGen{r}
			env := func() map[string]complex128 { return posEnv(r, "x", "y", "z") }
			for i := 0; i < 30; i++ {
				t := g.term(1 + r.Intn(4))
				if t.size() > 40 {
					continue
				}
				v := sym(pick(r, "x", "x", "x", "y", "z"))
				// The evaluated term: what evaluation itself does is not the matter here.
				t = eval(b, t)
				if t.size() > 60 || t.hasHead("Indeterminate") {
					continue
				}
				check := func(key string, call1, want *T) {
					if want == nil {
						return
					}
					got, src := call(b, call1)
					got = undone(got)
					ok, n, at := sameValues(r, got, want, env)
					if !ok {
						b.Fail(key, "%s gives %s: %s", src, clip(got.Src(), 300), at)
					}
					if n > 0 {
						b.Count("judged", 1)
					}
				}
				d := diffT(t, v)
				if d == nil {
					continue
				}
				check("D", sfn("D", t, v), d)
				switch r.Intn(6) {
				case 0:
					if dd := diffT(d, v); dd != nil && dd.size() < 300 {
						check("second", sfn("D", t, list(v, in(2))), dd)
						check("twice", sfn("D", sfn("D", t, v), v), dd)
					}
				case 1:
					u := eval(b, g.term(2))
					if ud := diffT(u, v); ud != nil {
						got, src := call(b, sfn("D", list(t, u), v))
						if !got.hasHead("List") || len(got.args()) != 2 {
							b.Fail("list", "%s gives %s", src, clip(got.Src(), 300))
							continue
						}
						for i, want := range []*T{d, ud} {
							if ok, _, at := sameValues(r, undone(got.args()[i]), want, env); !ok {
								b.Fail("list", "%s gives %s: element %d: %s", src, clip(got.Src(), 300), i+1, at)
							}
						}
					}
				case 2:
					// A term without the variable, whatever it is, is constant.
					u := fn("w", t, str("x"))
					q := sym("q")
					if got, src := call(b, sfn("D", u, q)); !same(got, in(0)) {
						b.Fail("constant", "%s gives %s", src, clip(got.Src(), 300))
					}
				case 3:
					// Any term may be the variable.
					k := pickT(r, []*T{fn("w", in(1)), sfn("Subscript", sym("w"), in(0)), fn("w", sym("a"), sym("b")), sfn(pick(r, "Sin", "Cos", "Tan", "Log", "Abs"), sym("w")), fn("h", fn("w", sym("a")))})
					if v.S != "Global`x" {
						break
					}
					u := eval(b, swapAll(t, sym("x"), k))
					got, src := call(b, sfn("D", u, k))
					got = undone(swapAll(got, k, sym("x")))
					if ok, _, at := sameValues(r, got, d, env); !ok {
						b.Fail("kernel", "%s gives %s: %s", src, clip(got.Src(), 300), at)
					}
				}
			}
		})
		// Evaluation ends for functions of sums of constants, and keeps the value.
		c.Batch("constants", c.N(32, 20), func(b *B) {
			r := b.R
			env := func() map[string]complex128 { return posEnv(r, "x", "y") }
			for i := 0; i < 15; i++ {
				var ts []*T
				for n := 1 + r.Intn(3); n > 0; n-- {
					k := pickT(r, []*T{sys("Pi"), sys("E"), sfn(pick(r, "Sin", "Cos", "Tan", "Log"), in(int64(1+r.Intn(6)))), in(int64(1 + r.Intn(4))), rat(1, 2), sym("x"), sfn("Sqrt", in(2)), sfn("Power", sym("y"), in(2)), sfn("Log", sym("x"))})
					if r.Intn(2) == 0 {
						k = sfn("Times", pickT(r, []*T{in(-1), in(-2), rat(-1, 2), in(2)}), k)
					}
					ts = append(ts, k)
				}
				if r.Intn(2) == 0 {
					ts = append(ts, sfn("Times", rat(int64(r.Intn(7)-3), int64(pick2(r, 1, 2, 2, 2, 3, 4))), sys("Pi")))
				}
				t := sfn(pick(r, "Sin", "Cos", "Tan", "ArcSin", "ArcTan", "Sin", "Cos", "ArcCos", "Cot", "Sec"), sfn("Plus", ts...))
				if r.Intn(4) == 0 && !t.hasHead("ArcSin") && !t.hasHead("ArcCos") {
					t = sfn(pick(r, "Sin", "Cos"), t)
				}
				got, src := call(b, t)
				// On the branch cuts the values may be conjugate to each other.
				w := got
				if t.hasHead("ArcSin") {
					w, t = sfn("Sin", w), sfn("Sin", t)
				} else if t.hasHead("ArcCos") {
					w, t = sfn("Cos", w), sfn("Cos", t)
				}
				if ok, _, at := sameValues(r, w, t, env); !ok {
					b.Fail("constants", "%s gives %s: %s", src, clip(got.Src(), 300), at)
				}
				b.Count("judged", 1)
			}
		})
		c.Batch("rewriting", c.N(40, 20), func(b *B) {
			r := b.R
			for i := 0; i < 10; i++ {
				env := func() map[string]complex128 { return posEnv(r, "x", "y", "z") }
				mono := func() *T {
					return sfn("Times", pickT(r, []*T{in(1), in(2), in(-1), rat(1, 2), in(3)}), pickT(r, []*T{sym("x"), sym("y"), sfn("Plus", sym("x"), sym("y")), sfn("Times", sym("x"), sym("y"))}))
				}
				var t *T
				f := "TrigToExp"
				switch r.Intn(3) {
				case 0:
					var a []*T
					for n := 1 + r.Intn(3); n > 0; n-- {
						a = append(a, sfn("Times", sym(pick(r, "x", "y", "z")), sfn(pick(r, "Sin", "Cos"), mono())))
					}
					t = sfn("Plus", a...)
				case 1:
					f = "PowerExpand"
					base := []*T{}
					for n := 1 + r.Intn(3); n > 0; n-- {
						base = append(base, sfn("Power", sym(pick(r, "x", "y", "z")), pickT(r, []*T{in(1), in(2), in(-1), in(3), rat(1, 2), sym("z")})))
					}
					u := sfn("Times", base...)
					t = pickT(r, []*T{sfn("Log", u), sfn("Sqrt", u), sfn("Power", u, rat(1, 3)), sfn("Plus", sfn("Log", u), sfn("Sqrt", u)), sfn("Power", sfn("Power", sym("x"), in(2)), rat(1, 2)), sfn("Log", sfn("Power", u, rat(5, 2)))})
				default:
					f = "TrigExpand"
					t = sfn("Cos", sfn("Times", in(2), mono()))
				}
				t = eval(b, t)
				got, src := call(b, sfn(f, t))
				if ok, _, at := sameValues(r, got, t, env); !ok {
					b.Fail(f, "%s gives %s: %s", src, clip(got.Src(), 300), at)
				}
			}
		})
		// Polynomial equations with known roots.
		c.Batch("roots", c.N(48, 20), func(b *B) {
			r := b.R
			g := polyGen{r}
			x := sym("x")
			for i := 0; i < 4; i++ {
				deg := []int{1, 1, 2, 2, 2, 2, 2, 3, 4}[r.Intn(9)]
				p := polyC(big.NewRat(int64(1+r.Intn(4)), int64(1+r.Intn(2))))
				var want []complex128
				for len(want) < deg {
					if len(want)+2 <= deg && r.Intn(3) == 0 {
						// A pair a +- Sqrt[q].
						a, q := big.NewRat(int64(r.Intn(9)-4), int64(1+r.Intn(2))), big.NewRat(int64(r.Intn(11)-5), 1)
						lin := polyV(0).add(polyC(a).neg())
						p = p.mul(lin.mul(lin).add(polyC(q).neg()))
						af, _ := a.Float64()
						qf, _ := q.Float64()
						s := cmplx.Sqrt(complex(qf, 0))
						want = append(want, complex(af, 0)+s, complex(af, 0)-s)
						continue
					}
					a := g.rat()
					if r.Intn(4) == 0 {
						a = big.NewRat(int64(r.Intn(3)), 1)
					}
					p = p.mul(polyV(0).add(polyC(a).neg()))
					af, _ := a.Float64()
					want = append(want, complex(af, 0))
				}
				// The same polynomial on both sides.
				q := poly{}
				if r.Intn(2) == 0 {
					q = g.flat(1, deg-1, r.Intn(3))
				}
				l, rh := p.add(q).T(), q.T()
				if r.Intn(3) == 0 {
					l, rh = rh, l
				}
				var t *T
				param := r.Intn(4) == 0 && deg <= 2
				if param {
					// A factor that is no number.
					t = sfn("Solve", sfn("Equal", sfn("Expand", sfn("Times", sfn("Plus", sym("y"), in(1)), sfn("Plus", l, sfn("Times", in(-1), rh)))), in(0)), x)
				} else {
					t = sfn("Solve", sfn("Equal", l, rh), x)
				}
				got, src := call(b, t)
				vs, ok := solValues(got, x)
				if !ok {
					if deg <= 4 && !param {
						b.Fail("unsolved", "%s gives %s", src, clip(got.Src(), 300))
					}
					b.Count("unsolved", 1)
					continue
				}
				env := posEnv(r, "y")
				var have []complex128
				undef := false
				for _, v := range vs {
					v.walk(func(t *T) {
						undef = undef || same(t, sys("Indeterminate")) || same(t, sys("ComplexInfinity"))
					})
				}
				if undef && specialForm(want) {
					b.Count("special", 1)
					continue
				}
				for _, v := range vs {
					n, ok := numEval(v, env)
					if !ok || !finite(n) {
						b.Fail("roots", "%s gives the solution %s", src, v.Src())
					}
					have = append(have, n)
				}
				if !matchRoots(have, want, 1e-4) {
					b.Fail("roots", "%s gives %s, the values %v, expected %v", src, clip(got.Src(), 300), have, want)
				}
				b.Count("equations", 1)
			}
		})
		c.Batch("known", 1, func(b *B) {
			b.Known("quartic-triple-root", func() (bool, string) {
				t := sess().Parse("Solve[2 - 7 x + 9 x^2 - 5 x^3 + x^4 == 0, x]")
				got := sess().EvalT(t)
				bad := false
				got.walk(func(t *T) { bad = bad || same(t, sys("Indeterminate")) })
				return !bad, "Solve[2 - 7 x + 9 x^2 - 5 x^3 + x^4 == 0, x], (x-1)^3 (x-2), gives Indeterminate"
			})
		})
		// Equations in which the unknown stands once: every solution must satisfy
		// it, and where the number of them is known none may be missing.
		c.Batch("isolation", c.N(48, 20), func(b *B) {
			r := b.R
			x := sym("x")
			num := func() *T { return pickT(r, []*T{in(2), in(3), in(-1), in(5), rat(1, 2), in(-3), rat(-2, 3), in(4)}) }
			for i := 0; i < 4; i++ {
				l := x
				roots := []func(complex128) []complex128{}
				exact, rooted := true, false
				one := func(f func(complex128) complex128) {
					roots = append(roots, func(v complex128) []complex128 { return []complex128{f(v)} })
				}
				for n := 1 + r.Intn(3); n > 0; n-- {
					k := num()
					kv, _ := numEval(k, nil)
					switch r.Intn(9) {
					case 0, 1:
						l = sfn("Plus", l, k)
						one(func(v complex128) complex128 { return v - kv })
					case 2, 3:
						l = sfn("Times", k, l)
						one(func(v complex128) complex128 { return v / kv })
					case 4, 5:
						m := 2 + r.Intn(4)
						if m > 3 && r.Intn(3) > 0 {
							m = 2
						}
						l = sfn("Power", l, in(int64(m)))
						roots = append(roots, func(v complex128) (out []complex128) {
							p := cmplx.Pow(v, complex(1/float64(m), 0))
							for j := 0; j < m; j++ {
								out = append(out, p*cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(m))))
							}
							return
						})
					case 6:
						l = sfn("Power", l, in(-1))
						one(func(v complex128) complex128 { return 1 / v })
					case 7:
						if l.hasHead("Power") || !exact {
							break
						}
						exact, rooted = false, true
						l = pickT(r, []*T{sfn("Log", l), sfn("Sqrt", l), sfn("Power", l, rat(1, 3))})
					case 8:
						if rooted {
							break
						}
						exact = false
						l = pickT(r, []*T{sfn("Power", sys("E"), l), sfn("Power", in(2), l), sfn("Sin", l), sfn("Cos", l), sfn("Tan", l)})
					}
				}
				l = eval(b, l)
				found := 0
				l.walk(func(t *T) {
					if same(t, x) {
						found++
					}
				})
				rh := pickT(r, []*T{sym("y"), num(), num(), sfn("Plus", sym("y"), in(1)), in(0), sfn("Times", in(2), sym("y"))})
				if found != 1 {
					continue
				}
				// Whether a root has a solution cannot be said of symbols.
				if rooted && !same(rh, in(0)) {
					rh = num()
				}
				t := sfn("Solve", sfn("Equal", l, rh), x)
				got, src := call(b, t)
				vs, ok := solValues(got, x)
				if !ok {
					b.Count("unsolved", 1)
					continue
				}
				var have []complex128
				env := posEnv(r, "y")
				for _, v := range vs {
					for k := -1; k <= 1; k++ {
						cond := boolT(true)
						val := v
						if v.hasHead("ConditionalExpression") {
							val, cond = v.args()[0], v.args()[1]
						}
						numbered := func(t *T) *T {
							return numberC(t, k)
						}
						n, ok := numEval(numbered(val), env)
						if !ok || !finite(n) {
							inf := false
							val.walk(func(t *T) {
								inf = inf || same(t, sys("ComplexInfinity"))
							})
							if !strings.Contains(src, "Log") && !strings.Contains(src, "Cot") && !inf {
								b.Fail("no value", "%s gives the solution %s", src, v.Src())
							}
							break
						}
						if k == 0 {
							have = append(have, n)
						}
						if h, known := condHolds(numbered(cond), env); !h || !known {
							continue
						}
						env["Global`x"] = n
						lv := errEval(l, env)
						rv, ok := numEval(rh, env)
						if !lv.ok || lv.cut || !ok {
							continue
						}
						if cmplx.Abs(lv.v-rv) > 1e4*lv.e+1e-7*(1+cmplx.Abs(rv)) {
							b.Fail("solution", "%s gives the solution %s, for which the left side is %v and the right %v at %v", src, v.Src(), lv.v, rv, env)
						}
						b.Count("solutions", 1)
					}
				}
				if exact {
					start, _ := numEval(rh, env)
					want := []complex128{start}
					zero := false
					for j := len(roots) - 1; j >= 0; j-- {
						var next []complex128
						for _, v := range want {
							if cmplx.Abs(v) < 1e-9 {
								zero = true
							}
							next = append(next, roots[j](v)...)
						}
						want = next
					}
					if zero {
						continue
					}
					if !matchRoots(have, want, 1e-6) {
						b.Fail("missing", "%s gives %s, the values %v, expected %v", src, clip(got.Src(), 300), have, want)
					}
					b.Count("complete", 1)
				}
			}
		})
		c.Batch("parameters", c.N(24, 20), func(b *B) {
			r := b.R
			x := sym("x")
			// A quadratic equation with symbols for coefficients.
			co := func() *T {
				return pickT(r, []*T{sym("a"), sym("b"), sfn("Plus", sym("a"), in(2)), sfn("Times", in(3), sym("b")), in(2), sfn("Times", sym("a"), sym("b")), fn("k", in(1))})
			}
			cs := []*T{co(), co(), co()}
			deg := 1 + r.Intn(2)
			var ts []*T
			for i := 0; i <= deg; i++ {
				if i == 0 || i == deg || r.Intn(3) > 0 {
					ts = append(ts, sfn("Times", cs[i], sfn("Power", x, in(int64(i)))))
				}
			}
			l := sfn("Plus", shuffleT(r, ts)...)
			t := sfn("Solve", sfn("Equal", l, in(0)), x)
			got, src := call(b, t)
			vs, ok := solValues(got, x)
			if !ok {
				b.Count("unsolved", 1)
			} else if len(vs) != deg {
				b.Fail("number", "%s gives %s", src, clip(got.Src(), 300))
			}
			kx := fn("k", in(1))
			for _, v := range vs {
				u := swapAll(swapAll(l, x, v), kx, sym("k"))
				ok, n, at := sameValues(r, u, in(0), func() map[string]complex128 { return posEnv(r, "a", "b", "k") })
				z := false
				for i := 0; i < 3 && !ok; i++ {
					e := posEnv(r, "a", "b", "k")
					w, k := numEval(u, e)
					z = z || k && cmplx.Abs(w) < 1e-8
				}
				if !ok && !z {
					b.Fail("parameters", "%s gives the solution %s: %s", src, v.Src(), at)
				}
				b.Count("solutions", int64(n))
			}
			// Two linear equations.
			for i := 0; i < 3; i++ {
				n := func() int64 { return int64(r.Intn(11) - 5) }
				a, bb, cc, d, e, f := n(), n(), n(), n(), n(), n()
				det := a*e - bb*d
				eq := func(a, b, c int64) *T {
					return sfn("Equal", sfn("Plus", sfn("Times", in(a), x), sfn("Times", in(b), sym("y"))), in(c))
				}
				got, src := call(b, sfn("Solve", list(eq(a, bb, cc), eq(d, e, f)), list(x, sym("y"))))
				if !got.hasHead("List") || det == 0 || len(got.args()) != 1 || !got.args()[0].hasHead("List") {
					b.Count("unsolved", 1)
					continue
				}
				vals := map[string]*big.Rat{}
				for _, s := range got.args()[0].args() {
					if s.hasHead("Rule") && s.args()[0].K == kSym {
						vals[s.args()[0].S] = ratOf(s.args()[1])
					}
				}
				wx, wy := big.NewRat(cc*e-bb*f, det), big.NewRat(a*f-cc*d, det)
				if gx, gy := vals["Global`x"], vals["Global`y"]; gx == nil || gy == nil || gx.Cmp(wx) != 0 || gy.Cmp(wy) != 0 {
					b.Fail("system", "%s gives %s, expected x = %s, y = %s", src, clip(got.Src(), 300), wx.RatString(), wy.RatString())
				}
				b.Count("systems", 1)
			}
		})
	})
}

// numberC puts k for the constants C[1], C[2], ...
func numberC(t *T, k int) *T {
	if t.K != kExpr {
		return t
	}
	if h := t.A[0]; h.K == kSym && strings.HasSuffix(h.S, "`C") && len(t.A) == 2 {
		return in(int64(k))
	}
	a := make([]*T, len(t.A))
	for i := range t.A {
		a[i] = numberC(t.A[i], k)
	}
	return ex(a...)
}

func swapAll(t, x, y *T) *T {
	if same(t, x) {
		return y
	}
	if t.K != kExpr {
		return t
	}
	a := make([]*T, len(t.A))
	for i := range t.A {
		a[i] = swapAll(t.A[i], x, y)
	}
	return ex(a...)
}
