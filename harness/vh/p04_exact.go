package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// arithTree is an arithmetic term with its source in operator syntax and its
// exact value.
type arithTree struct {
	src string
	t   *T
	v   cq
	ok  bool
}

func genArith(r *rand.Rand, d int, wild, complexes bool) arithTree {
	if d == 0 || r.Intn(6) == 0 {
		v := genExact(r, wild, complexes)
		num := v.T()
		src := num.Src()
		switch num.K {
		case kRat:
			src = fmt.Sprintf("(%s/%s)", bigT(num.I).Src(), num.D)
		case kCplx:
			src = fmt.Sprintf("(%s + %s*I)", ratSrc(v.re), ratSrc(v.im))
		}
		return arithTree{src, num, v, true}
	}
	a := genArith(r, d-1, wild, complexes)
	switch r.Intn(8) {
	case 0, 1: // n-ary
		n := 1 + r.Intn(4)
		add := r.Intn(2) == 0
		src, ts, v, ok := a.src, []*T{a.t}, a.v, a.ok
		for i := 0; i < n; i++ {
			b := genArith(r, d-1, wild, complexes)
			ts = append(ts, b.t)
			ok = ok && b.ok
			if !ok {
				continue
			}
			if add {
				src, v = src+" + "+b.src, v.add(b.v)
			} else {
				src, v = src+"*"+b.src, v.mul(b.v)
			}
		}
		if add {
			return arithTree{"(" + src + ")", sfn("Plus", ts...), v, ok}
		}
		return arithTree{"(" + src + ")", sfn("Times", ts...), v, ok}
	case 2:
		b := genArith(r, d-1, wild, complexes)
		if !a.ok || !b.ok {
			return arithTree{ok: false}
		}
		return arithTree{"(" + a.src + " - " + b.src + ")", sfn("Plus", a.t, sfn("Times", in(-1), b.t)), a.v.sub(b.v), true}
	case 3:
		b := genArith(r, d-1, wild, complexes)
		if !a.ok || !b.ok || b.v.isZero() {
			return arithTree{ok: false}
		}
		return arithTree{"(" + a.src + "/" + b.src + ")", sfn("Times", a.t, sfn("Power", b.t, in(-1))), a.v.mul(b.v.inv()), true}
	case 4:
		if !a.ok {
			return a
		}
		return arithTree{"(-" + a.src + ")", sfn("Times", in(-1), a.t), cqInt(0).sub(a.v), true}
	case 5:
		if !a.ok {
			return a
		}
		n := r.Intn(9) - 4
		v, ok := a.v.pow(n)
		return arithTree{fmt.Sprintf("(%s^(%d))", a.src, n), sfn("Power", a.t, in(int64(n))), v, ok}
	case 6:
		if !a.ok || !a.v.isReal() {
			return a
		}
		return arithTree{"Abs[" + a.src + "]", sfn("Abs", a.t), cqRat(new(big.Rat).Abs(a.v.re)), true}
	}
	if !a.ok {
		return a
	}
	switch r.Intn(3) {
	case 0:
		return arithTree{"Re[" + a.src + "]", sfn("Re", a.t), cqRat(a.v.re), true}
	case 1:
		return arithTree{"Im[" + a.src + "]", sfn("Im", a.t), cqRat(a.v.im), true}
	}
	return arithTree{"Conjugate[" + a.src + "]", sfn("Conjugate", a.t), cq{a.v.re, new(big.Rat).Neg(a.v.im)}, true}
}

func ratSrc(v *big.Rat) string {
	if v.IsInt() {
		return bigT(v.Num()).Src()
	}
	return fmt.Sprintf("(%s/%s)", bigT(v.Num()).Src(), v.Denom())
}

// genRoots is a term of + * ^ over small numbers, symbols and roots.
func genRoots(r *rand.Rand, d int) *T {
	root := func() *T {
		return sfn("Power", genRootBase(r), pickT(r, []*T{rat(1, 2), rat(-1, 2), rat(1, 3), rat(-1, 3), rat(2, 3), rat(3, 2), rat(1, 4), rat(-5, 2)}))
	}
	if d == 0 {
		if r.Intn(2) == 0 {
			return genRootBase(r)
		}
		return root()
	}
	switch r.Intn(6) {
	case 0, 1, 2:
		ts := []*T{root()}
		for i := 0; i < 1+r.Intn(3); i++ {
			ts = append(ts, genRoots(r, d-1))
		}
		if r.Intn(2) == 0 { // the same root of other numbers
			ts = append(ts, sfn("Power", genRootBase(r), ts[0].A[2]))
		}
		return sfn("Times", ts...)
	case 3:
		ts := []*T{}
		for i := 0; i < 2+r.Intn(2); i++ {
			ts = append(ts, genRoots(r, d-1))
		}
		return sfn("Plus", ts...)
	}
	return sfn("Power", genRoots(r, d-1), pickT(r, []*T{in(2), in(-1), in(3), in(-2), rat(1, 2), rat(1, 3), rat(-1, 2), rat(3, 2)}))
}

func genRootBase(r *rand.Rand) *T {
	switch r.Intn(6) {
	case 0:
		return sym(pick(r, "x", "y"))
	case 1:
		return ratT(randSmallRat(r))
	case 2:
		return cplx(in(int64(r.Intn(3))), in(int64(1+r.Intn(2))))
	}
	return in(int64(r.Intn(21) - 9))
}

func init() {
	register("P04", "random arithmetic over integers, rationals and Gaussian rationals (small and of hundreds of bits), as operator source and as raw terms, against exact rational arithmetic; roots against exact and numeric roots; sums and products with symbols evaluated exactly at random points before and after; the number folding API called directly; distinct = distinct terms", func(c *Ctx) {
		c.Batch("fold", c.N(40, 40), func(b *B) {
			for i := 0; i < 800; i++ {
				n := b.R.Intn(6)
				ts := []*T{sys(pick(b.R, "Plus", "Times"))}
				add := b.R.Intn(2) == 0
				want := cqInt(1)
				if add {
					want = cqInt(0)
				}
				stop := -1
				cplxes := b.R.Intn(2) == 0
				for k := 0; k < n; k++ {
					if b.R.Intn(8) == 0 {
						ts = append(ts, pickT(b.R, []*T{sym("x"), str("1"), fn("f", in(2)), sfn("Plus", in(1), in(2)), list()}))
						if stop < 0 {
							stop = k + 1
						}
						continue
					}
					v := genExact(b.R, b.R.Intn(3) == 0, cplxes)
					t := v.T()
					if t.K == kRat && b.R.Intn(3) == 0 { // not in lowest terms
						m := big.NewInt(int64(2 + b.R.Intn(5)))
						if b.R.Intn(2) == 0 {
							m.Neg(m)
						}
						t = &T{K: kRat, I: new(big.Int).Mul(t.I, m), D: new(big.Int).Mul(t.D, m)}
					}
					ts = append(ts, t)
					if stop < 0 {
						if add {
							want = want.add(v)
						} else {
							want = want.mul(v)
						}
					}
				}
				t := ex(ts...)
				op := "product"
				if add {
					op = "sum"
				}
				b.Casef("%s of the leading numbers of %s", op, t.Src())
				e := t.Ex().(*atoms.Expression)
				h := e.Hash()
				var got expreduceapi.Ex
				var at int
				if add {
					got, at = atoms.ComputeNumericPart(atoms.FoldFnAdd, e)
				} else {
					got, at = atoms.ComputeNumericPart(atoms.FoldFnMul, e)
				}
				if at != stop {
					b.Fail("fold-stop", "stopped at %d, want %d", at, stop)
				}
				nnum := stop - 1
				if stop < 0 {
					nnum = n
				}
				if got == nil {
					if nnum > 0 {
						b.Fail("fold-none", "no number, want %s", want.T().Src())
					}
				} else {
					g := fromEx(got)
					v, ok := cqOf(g)
					if nnum == 0 || !ok || !v.eq(want) {
						b.Fail("fold-value", "gives %s, want %s", g.Src(), want.T().Src())
					}
				}
				e.ClearHashes()
				if !same(fromEx(e), t) || e.Hash() != h {
					b.Fail("fold-input", "changed its input to %s", fromEx(e).Src())
				}
				b.Seen(t.Key() + op)
			}
		})
		c.Batch("fold-real", c.N(12, 20), func(b *B) {
			for i := 0; i < 500; i++ {
				n := 1 + b.R.Intn(5)
				ts := []*T{sys("Plus")}
				add := b.R.Intn(2) == 0
				want := complex128(1)
				if add {
					want = 0
				}
				real := false
				mag := 1.0
				for k := 0; k < n; k++ {
					var t *T
					switch b.R.Intn(3) {
					case 0:
						t = flt(b.R.NormFloat64() * 8)
						real = true
					case 1:
						t = genExact(b.R, false, true).T()
					default:
						t = cplx(flt(b.R.NormFloat64()), rat(int64(1+b.R.Intn(5)), 3))
						real = true
					}
					v, _ := numEval(t, nil)
					if add {
						want += v
					} else {
						want *= v
					}
					mag *= 1 + absC(v)
					ts = append(ts, t)
				}
				t := ex(ts...)
				b.Casef("add=%v %s", add, t.Src())
				e := t.Ex().(*atoms.Expression)
				var got expreduceapi.Ex
				if add {
					got, _ = atoms.ComputeNumericPart(atoms.FoldFnAdd, e)
				} else {
					got, _ = atoms.ComputeNumericPart(atoms.FoldFnMul, e)
				}
				g := fromEx(got)
				v, ok := numEval(g, nil)
				if !ok || absC(v-want) > 1e-12*mag {
					b.Fail("fold-real-value", "gives %s, want about %v", g.Src(), want)
				}
				hasReal := false
				g.walk(func(x *T) { hasReal = hasReal || x.K == kFlt })
				if g.K == kCplx {
					hasReal = hasReal || g.A[0].K == kFlt || g.A[1].K == kFlt
				}
				if hasReal != real {
					b.Fail("fold-real-kind", "gives %s", g.Src())
				}
				if !same(fromEx(e), t) {
					b.Fail("fold-input", "changed its input to %s", fromEx(e).Src())
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("numbers", c.N(64, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 220; i++ {
				a := genArith(b.R, 1+b.R.Intn(3), b.R.Intn(3) == 0, b.R.Intn(2) == 0)
				if !a.ok || a.v.re.Num().BitLen() > 4000 {
					continue
				}
				want := a.v.T()
				b.Case(a.src)
				if got := s.Run(a.src); !same(got, want) {
					b.Fail("value", "gives %s, want %s", got.Src(), want.Src())
				}
				b.Case(a.t.Src())
				if got := s.EvalT(a.t); !same(got, want) {
					b.Fail("value-term", "gives %s, want %s", got.Src(), want.Src())
				}
				// By way of variables: the numbers are shared, and stay as they are.
				if b.R.Intn(3) == 0 {
					s.EvalT(sfn("Set", sym("n1"), a.t))
					o := genArith(b.R, 1, true, true)
					if o.ok && !o.v.isZero() {
						s.EvalT(sfn("Set", sym("n2"), o.t))
						b.Casef("n1 = %s; n2 = %s", a.src, o.src)
						chk := func(src string, w cq) {
							if got := s.Run(src); !same(got, w.T()) {
								b.Fail("value-variables", "%s gives %s, want %s", src, got.Src(), w.T().Src())
							}
						}
						chk("n1 + n2", a.v.add(o.v))
						chk("n1*n2", a.v.mul(o.v))
						chk("n1 - n2", a.v.sub(o.v))
						chk("n1/n2", a.v.mul(o.v.inv()))
						chk("n1", a.v)
						chk("n2", o.v)
					}
				}
				b.Seen(a.src)
			}
		})
		c.Batch("canonical", c.N(8, 20), func(b *B) {
			s := newSess()
			for i := 0; i < 400; i++ {
				n, d := randBig(b.R), randBig(b.R)
				if b.R.Intn(2) == 0 {
					m := randBig(b.R)
					n, d = new(big.Int).Mul(n, m), new(big.Int).Mul(d, m)
				}
				var want *T
				switch {
				case d.Sign() != 0:
					want = ratT(new(big.Rat).SetFrac(n, d))
				case n.Sign() == 0:
					want = sys("Indeterminate")
				default:
					want = sys("ComplexInfinity")
				}
				raw := &T{K: kRat, I: n, D: d}
				b.Casef("the rational %s over %s", n, d)
				if got := s.EvalT(raw); !same(got, want) {
					b.Fail("rational", "gives %s, want %s", got.Src(), want.Src())
				}
				if got := s.EvalT(sfn("Rational", bigT(n), bigT(d))); !same(got, want) {
					b.Fail("rational-call", "Rational gives %s, want %s", got.Src(), want.Src())
				}
				if d.Sign() != 0 {
					o := randRat(b.R)
					w := cq{new(big.Rat).SetFrac(n, d), o}
					if got := s.EvalT(cplx(raw, ratT(o))); !same(got, w.T()) {
						b.Fail("complex", "as real part with imaginary part %s: gives %s, want %s", o, got.Src(), w.T().Src())
					}
					if got := s.EvalT(sfn("Complex", raw, ratT(o))); !same(got, w.T()) {
						b.Fail("complex-call", "Complex with %s gives %s, want %s", o, got.Src(), w.T().Src())
					}
				}
				b.Seen(raw.Key())
			}
		})
		c.Batch("roots", c.N(16, 20), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				// Exact roots.
				q := int64(2 + b.R.Intn(4))
				p := int64(b.R.Intn(40))
				k := int64(b.R.Intn(7) - 2)
				if p == 0 && k <= 0 || k == 0 {
					k = 1
				}
				base := new(big.Int).Exp(big.NewInt(p), big.NewInt(q), nil)
				want, _ := cqInt(p).pow(int(k))
				e := ratT(big.NewRat(k, q))
				call := sfn("Power", bigT(base), e)
				b.Case(call.Src())
				if got := s.EvalT(call); !same(got, want.T()) {
					b.Fail("root", "gives %s, want %s", got.Src(), want.T().Src())
				}
				b.Seen(call.Key())
				// Any root, by value.
				n := int64(b.R.Intn(800) - 300)
				if n == 0 {
					n = 12
				}
				re := randSmallRat(b.R)
				if b.R.Intn(2) == 0 {
					re = big.NewRat(int64(b.R.Intn(11)-5), int64(2+b.R.Intn(3)))
				}
				call = sfn("Power", in(n), ratT(re))
				b.Case(call.Src())
				w, _ := numEval(call, nil)
				res := s.EvalT(call)
				got, ok := numEval(res, nil)
				if !ok || finite(w) && !closeTo(got, w, 1e-9) {
					b.Fail("root-value", "gives %s, about %v, want about %v", res.Src(), got, w)
				}
				b.Seen(call.Key())
			}
		})
		c.Batch("root-terms", c.N(48, 40), func(b *B) {
			// Sums, products and powers of roots and symbols: the value stays.
			s := newSess()
			for i := 0; i < 150; i++ {
				t := genRoots(b.R, 1+b.R.Intn(3))
				env := map[string]complex128{}
				for _, n := range []string{"x", "y"} {
					v := complex(b.R.NormFloat64()*2, 0)
					if b.R.Intn(3) == 0 {
						v += complex(0, b.R.NormFloat64())
					}
					env["Global`"+n] = v
				}
				want := errEval(t, env)
				if !want.ok || want.cut {
					b.Count("ill-conditioned", 1)
					continue
				}
				b.Case(t.Src())
				res := s.EvalT(t)
				got := errEval(res, env)
				if got.cut {
					b.Count("undecided", 1)
				} else if !got.ok || !want.near(got.v, 300) && !got.near(want.v, 300) {
					b.Fail("root-term-value", "gives %s, about %v, want about %v at %v", clip(res.Src(), 300), got.v, want.v, env)
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("symbolic", c.N(64, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 60; i++ {
				t := genPoly(b.R, 1+b.R.Intn(3), b.R.Intn(2) == 0)
				if t.size() > 120 {
					continue
				}
				pts := []map[string]cq{randPoint(b.R), randPoint(b.R)}
				defined := true
				for _, p := range pts {
					if _, ok := exactEval(t, p); !ok {
						defined = false
					}
				}
				if !defined {
					continue
				}
				b.Case(t.Src())
				res := s.EvalT(t)
				for _, p := range pts {
					want, _ := exactEval(t, p)
					got, ok := exactEval(res, p)
					if !ok {
						b.Count("not_exact_form", 1)
						continue
					}
					if !got.eq(want) {
						b.Fail("symbolic", "gives %s, which at x=%s y=%s z=%s is %s, not %s", res.Src(), p["Global`x"].T().Src(), p["Global`y"].T().Src(), p["Global`z"].T().Src(), got.T().Src(), want.T().Src())
					}
					b.Count("points", 1)
				}
				b.Seen(t.Key())
			}
		})
	})
}
