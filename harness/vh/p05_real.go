package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"github.com/corywalker/expreduce/expreduce/atoms"
)

// mustBeReal says whether an arithmetic term has to come out as a machine real
// or a complex of such: whether reals spread through it.
func mustBeReal(t *T, isN bool) (is, known bool) {
	switch t.K {
	case kFlt:
		return true, true
	case kInt, kRat, kCplx:
		return false, true
	case kSym:
		return false, isN // outside of N, constants stay
	}
	is, known = false, true
	switch t.A[0].S {
	case "System`ArcTan":
		if len(t.A) == 3 {
			return false, false
		}
	case "System`Im", "System`Re", "System`Conjugate":
		return false, false
	case "System`Power": // x^0 is 1 and x^1 is x
		if v, ok := numEval(t.A[2], nil); !ok || v == 0 || v == 1 {
			return false, false
		}
		if v, ok := numEval(t.A[1], nil); !ok || v == 1 {
			return false, false
		}
	}
	for _, a := range t.args() {
		i, k := mustBeReal(a, isN)
		is, known = is || i, known && k
	}
	if !is && !isN && known { // exact: a number only with + * and integer powers
		_, known = exactEval(t, nil)
	}
	return is, known
}

func isFloatNum(t *T) bool {
	return t.K == kFlt || t.K == kCplx && (t.A[0].K == kFlt || t.A[1].K == kFlt)
}

func init() {
	register("P05", "random arithmetic that mixes machine reals with integers, rationals and complexes, powers with real and rational exponents, elementary functions of reals, N of exact numeric expressions, against numeric evaluation with propagated rounding bounds; conversions of atoms and equality of atoms called directly; distinct = distinct terms", func(c *Ctx) {
		c.Batch("convert", c.N(20, 30), func(b *B) {
			for i := 0; i < 600; i++ {
				v := randRat(b.R)
				if b.R.Intn(3) == 0 {
					v = randSmallRat(b.R)
				}
				b.Casef("%s as a real", v)
				chk := func(got *big.Float, w *big.Rat) {
					want := new(big.Float).SetPrec(53).SetMode(big.ToNearestEven).SetRat(w)
					g, _ := got.Rat(nil)
					if g == nil || new(big.Float).SetPrec(53).SetRat(g).Cmp(want) != 0 {
						b.Fail("convert", "gives %s, want %s", got.Text('p', 0), want.Text('p', 0))
					}
				}
				rt := &T{K: kRat, I: v.Num(), D: v.Denom()}
				e := rt.Ex().(*atoms.Rational)
				f, ok := atoms.RationalToFlt(e)
				if !ok {
					b.Fail("convert-ok", "RationalToFlt fails")
				} else {
					chk(f.Val, v)
				}
				if !same(fromEx(e), rt) {
					b.Fail("convert-input", "changes its input to %s", fromEx(e).Src())
				}
				n := new(big.Rat).SetInt(v.Num())
				if f, ok := atoms.IntegerToFlt(bigT(v.Num()).Ex().(*atoms.Integer)); !ok {
					b.Fail("convert-ok", "IntegerToFlt fails")
				} else {
					chk(f.Val, n)
				}
				b.Seen(v.String())
			}
		})
		c.Batch("arithmetic", c.N(120, 40), func(b *B) {
			s := newSess()
			g := &realGen{r: b.R, reals: true}
			for i := 0; i < 260; i++ {
				g.complexs = b.R.Intn(3) == 0
				g.funcs = b.R.Intn(3) == 0
				g.big = !g.funcs && b.R.Intn(2) == 0
				t := g.term(1 + b.R.Intn(4))
				checkReal(b, s, t, t, false)
			}
		})
		c.Batch("contagion", c.N(12, 40), func(b *B) {
			s := newSess()
			g := &realGen{r: b.R, reals: true}
			part := func(fl bool) *T {
				if fl {
					return flt(g.r.NormFloat64() * 3)
				}
				return ratT(randSmallRat(g.r))
			}
			for i := 0; i < 120; i++ {
				ts := []*T{}
				for k := 1 + b.R.Intn(3); k > 0; k-- {
					switch b.R.Intn(4) {
					case 0:
						ts = append(ts, ratT(randSmallRat(b.R)))
					case 1:
						ts = append(ts, sys(pick(b.R, "Pi", "E", "Degree")))
					case 2:
						ts = append(ts, sfn("Sqrt", in(int64(2+b.R.Intn(5)))))
					case 3:
						ts = append(ts, sfn(pick(b.R, "Plus", "Times"), in(int64(2+b.R.Intn(4))), sys("Pi")))
					}
				}
				k := b.R.Intn(4)
				switch k {
				case 0:
					ts = append(ts, part(true))
				case 1:
					ts = append(ts, cplx(part(true), part(false)))
				case 2:
					ts = append(ts, cplx(part(false), part(true)))
				case 3:
					ts = append(ts, cplx(part(true), part(true)))
				}
				t := sfn(pick(b.R, "Plus", "Times"), shuffleT(b.R, ts)...)
				want := errEval(t, nil)
				if cmplx.Abs(want.v) < 1e-6 {
					continue
				}
				b.Case(t.Src())
				got := s.EvalT(t)
				v := errEval(got, nil)
				if !isFloatNum(got) {
					b.Fail(fmt.Sprintf("contagion%d", k), "gives %s", clip(got.Src(), 300))
				}
				if !v.ok || !want.near(v.v, 200) {
					b.Fail("contagion-value", "gives %s, want %v", clip(got.Src(), 300), want.v)
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("N", c.N(120, 40), func(b *B) {
			s := newSess()
			g := &realGen{r: b.R, funcs: true}
			for i := 0; i < 120; i++ {
				g.complexs = b.R.Intn(5) == 0
				g.big, g.funcs = false, true
				if b.R.Intn(3) == 0 {
					g.big, g.funcs = true, false
				}
				t := g.term(1 + b.R.Intn(3))
				checkReal(b, s, sfn("N", t), t, true)
			}
		})
		c.Batch("functions", c.N(8, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 250; i++ {
				f := pick(b.R, "Sin", "Cos", "Tan", "Cot", "ArcTan", "Exp", "Log", "Sqrt", "Abs", "Sign", "Re", "Im", "Conjugate", "Arg", "ArcTan2")
				x := b.R.NormFloat64() * math.Pow(10, float64(b.R.Intn(4)-1))
				if f == "Log" || f == "Sqrt" {
					x = math.Exp(b.R.NormFloat64() * 20)
				}
				var t *T
				var want nv
				switch f {
				case "Sign":
					if b.R.Intn(5) == 0 {
						x = 0
					}
					b.Casef("Sign[%v]", x)
					sg := int64(0)
					if x > 0 {
						sg = 1
					} else if x < 0 {
						sg = -1
					}
					if got := s.EvalT(sfn("Sign", flt(x))); !same(got, in(sg)) {
						b.Fail("sign", "gives %s", got.Src())
					}
					continue
				case "ArcTan2":
					y := b.R.NormFloat64()
					switch b.R.Intn(8) {
					case 0:
						x = 0
					case 1:
						y = 0
					}
					if x == 0 && y == 0 {
						continue
					}
					t = sfn("ArcTan", flt(x), flt(y))
				default:
					t = sfn(f, flt(x))
				}
				want = errEval(t, nil)
				if !want.ok || want.cut {
					continue
				}
				checkReal(b, s, t, t, false)
			}
		})
		c.Batch("symbolic", c.N(24, 40), func(b *B) {
			// Terms with symbols: replacing the symbols by reals before or after
			// makes no difference beyond rounding.
			s := newSess()
			for i := 0; i < 120; i++ {
				t := genPoly(b.R, 1+b.R.Intn(3), false)
				// some numbers become real
				t = mapT(t, func(x *T) *T {
					if (x.K == kInt || x.K == kRat) && b.R.Intn(2) == 0 {
						v, _ := numEval(x, nil)
						return flt(real(v))
					}
					return x
				}, "Power")
				env := map[string]complex128{}
				for _, n := range []string{"x", "y", "z"} {
					env["Global`"+n] = complex(b.R.NormFloat64()+2, 0)
				}
				want := errEval(t, env)
				if !want.ok || want.cut {
					continue
				}
				b.Case(t.Src())
				got := s.EvalT(t)
				v := errEval(got, env)
				if v.cut {
					b.Count("undecided", 1)
					continue
				}
				if !v.ok || !want.near(v.v, 200) {
					b.Fail("symbolic-value", "gives %s, value %v, want %v", clip(got.Src(), 300), v.v, want.v)
				}
				b.Seen(t.Key())
			}
		})
	})
}

func checkReal(b *B, s *Sess, call, t *T, isN bool) {
	want := errEval(t, nil)
	huge := false
	t.walk(func(x *T) {
		if x.hasHead("Exp") || x.hasHead("Power") {
			if v := errEval(x.A[len(x.A)-1], nil); cmplx.Abs(v.v) > 1e4 {
				huge = true // takes very long
			}
			if v, ok := exactEval(x.A[1], nil); ok && v.re.Num().BitLen()+v.re.Denom().BitLen()+v.im.Num().BitLen()+v.im.Denom().BitLen() > 60 {
				huge = true // roots of it are taken by factoring
			}
		}
	})
	if !want.ok || want.cut || huge {
		b.Count("ill-conditioned", 1)
		return
	}
	b.Case(call.Src())
	got := s.EvalT(call)
	v := errEval(got, nil)
	if v.cut {
		b.Count("undecided", 1)
		return
	}
	if !v.ok || !(want.near(v.v, 200) || v.near(want.v, 200)) {
		b.Fail("value"+fmt.Sprint(isN), "gives %s, value %v, want %v +- %.1g", clip(got.Src(), 300), v.v, want.v, want.e)
	}
	if wellPosed(t) {
		is, known := mustBeReal(t, isN)
		if isN && known && !isFloatNum(got) {
			b.Fail("not-real-N", "gives %s", clip(got.Src(), 300))
		}
		if !isN && known && is && !isFloatNum(got) {
			b.Fail("not-real", "gives %s", clip(got.Src(), 300))
		}
		b.Count("inside the real line", 1)
	}
	if !isN {
		has := false
		t.walk(func(x *T) { has = has || x.K == kFlt })
		if !has && isFloatNum(got) {
			b.Fail("exact-became-real", "gives %s", got.Src())
		}
	}
	b.Seen(t.Key())
}
