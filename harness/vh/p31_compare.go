package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
)

// A real number for comparisons: its exact value, and the value as a machine
// real.
type cmpNumber struct {
	t   *T
	v   *big.Rat
	flt bool
}

func cmpNum1(r *rand.Rand, near *cmpNumber) cmpNumber {
	if near != nil && r.Intn(2) == 0 {
		v := new(big.Rat).Set(near.v)
		switch r.Intn(6) {
		case 0:
			v.Add(v, big.NewRat(1, 1))
		case 1:
			v.Neg(v)
		case 2: // too near for machine reals, if it is long
			v.Add(v, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(90)))))
		}
		return toCmp(r, v)
	}
	switch r.Intn(5) {
	case 0:
		return toCmp(r, randRat(r))
	case 1:
		v, _ := new(big.Float).SetInt(new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 120))).Rat(nil)
		return toCmp(r, v)
	case 2:
		f := r.NormFloat64()
		v := new(big.Rat).SetFloat64(f)
		return cmpNumber{flt(f), v, true}
	}
	return toCmp(r, randSmallRat(r))
}

func toCmp(r *rand.Rand, v *big.Rat) cmpNumber {
	f, exact := v.Float64()
	if exact && r.Intn(3) == 0 {
		return cmpNumber{flt(f), v, true}
	}
	return cmpNumber{ratT(v), v, false}
}

// order compares two numbers: exactly when both are exact, after conversion
// to machine reals otherwise. sure is false when two reals are within the
// tolerance of the comparison.
func (a cmpNumber) order(b cmpNumber) (o int, sure bool) {
	if !a.flt && !b.flt {
		return a.v.Cmp(b.v), true
	}
	x, _ := a.v.Float64()
	y, _ := b.v.Float64()
	if x == y {
		return 0, true
	}
	d := x - y
	if d < 0 {
		d = -d
	}
	m := x
	if m < 0 {
		m = -m
	}
	if d < 1e-12*m {
		return 0, false
	}
	if x < y {
		return -1, true
	}
	return 1, true
}

var relTest = map[string]func(o int) bool{
	"Less": func(o int) bool { return o < 0 }, "LessEqual": func(o int) bool { return o <= 0 },
	"Greater": func(o int) bool { return o > 0 }, "GreaterEqual": func(o int) bool { return o >= 0 },
	"Equal": func(o int) bool { return o == 0 },
}

var relOp = map[string]string{"Less": "<", "LessEqual": "<=", "Greater": ">", "GreaterEqual": ">=", "Equal": "==", "Unequal": "!=", "SameQ": "===", "UnsameQ": "=!="}

func init() {
	register("P31", "random numbers of all types, near and far, in chains of comparisons, against exact order; equality of terms with symbols in both orders and under substitution; the equality of atoms called directly for all pairs; constants; Max and Min of nested lists with symbols; logic expressions against truth tables; distinct = distinct terms", func(c *Ctx) {
		c.Batch("atoms", c.N(24, 30), func(b *B) {
			for i := 0; i < 800; i++ {
				var x, y *T
				var want string
				switch b.R.Intn(5) {
				case 0, 1:
					p := cmpNum1(b.R, nil)
					q := cmpNum1(b.R, &p)
					x, y = p.t, q.t
					o, sure := p.order(q)
					if sure {
						want = "EQUAL_FALSE"
						if o == 0 {
							want = "EQUAL_TRUE"
						}
					}
				case 2:
					p, q := cmpNum1(b.R, nil), cmpNum1(b.R, nil)
					p2, q2 := p, q
					if b.R.Intn(2) == 0 {
						p2, q2 = cmpNum1(b.R, &p), cmpNum1(b.R, &q)
					}
					x, y = cplx(p.t, q.t), cplx(p2.t, q2.t)
					o1, s1 := p.order(p2)
					o2, s2 := q.order(q2)
					if s1 && s2 {
						want = "EQUAL_FALSE"
						if o1 == 0 && o2 == 0 {
							want = "EQUAL_TRUE"
						}
					}
				case 3:
					x, y = str(pick(b.R, "a", "b", "ab", "")), str(pick(b.R, "a", "b", "ab", ""))
					want = "EQUAL_FALSE"
					if x.S == y.S {
						want = "EQUAL_TRUE"
					}
				default: // something with a symbol in it: never decided, unless identical
					x = pickT(b.R, []*T{sym("x"), sym("y"), fn("f", sym("x")), sfn("Plus", in(1), sym("x")), list(sym("x"))})
					y = pickT(b.R, []*T{genNum(b.R), sym("x"), sym("y"), str("x"), fn("f", in(1)), sfn("Plus", in(1), sym("y"))})
					if b.R.Intn(2) == 0 {
						x, y = y, x
					}
					want = "EQUAL_UNK"
					if same(x, y) {
						want = "EQUAL_TRUE"
					}
				}
				b.Casef("%s against %s", x.Src(), y.Src())
				ex, ey := x.Ex(), y.Ex()
				g1, g2 := ex.IsEqual(ey), ey.IsEqual(ex)
				if want != "" && g1 != want {
					b.Fail("atom-equal", "%s, want %s", g1, want)
				}
				if g1 != g2 {
					b.Fail("atom-equal-symmetry", "%s, the other way round %s", g1, g2)
				}
				if g := ex.IsEqual(ex.DeepCopy()); g != "EQUAL_TRUE" {
					b.Fail("atom-equal-self", "%s with its own copy", g)
				}
				if got := atoms.IsSameQ(ex, ey); got != same(x, y) && !(got && same(asReals(x), asReals(y))) {
					b.Fail("atom-same", "IsSameQ is %v", got)
				}
				if !same(fromEx(ex), x) || !same(fromEx(ey), y) {
					b.Fail("atom-changed", "an operand changes")
				}
				b.Seen(x.Key() + y.Key())
			}
		})
		c.Batch("numbers", c.N(32, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 160; i++ {
				n := 2
				if b.R.Intn(3) == 0 {
					n = 1 + b.R.Intn(5)
				}
				ns := []cmpNumber{cmpNum1(b.R, nil)}
				for len(ns) < n {
					ns = append(ns, cmpNum1(b.R, &ns[b.R.Intn(len(ns))]))
				}
				if b.R.Intn(3) == 0 { // ordered chains come out True
					for i := range ns {
						for j := range ns[:i] {
							if ns[j].v.Cmp(ns[i].v) > 0 {
								ns[i], ns[j] = ns[j], ns[i]
							}
						}
					}
				}
				ts := []*T{}
				ops := []string{}
				srcs := ns[0].t.Src()
				want, sure, eqAll := true, true, true
				for i, x := range ns {
					ts = append(ts, x.t)
					if i > 0 {
						op := pick(b.R, "Less", "LessEqual", "Greater", "GreaterEqual", "Equal")
						ops = append(ops, op)
						o, s1 := ns[i-1].order(x)
						if !s1 {
							sure = false
						}
						want = want && relTest[op](o)
						srcs += " " + relOp[op] + " " + x.t.Src()
						for j := range ns[:i] {
							o, s1 := ns[j].order(x)
							sure = sure && s1
							eqAll = eqAll && o == 0
						}
					}
				}
				if !sure {
					b.Count("too near", 1)
					continue
				}
				for _, op := range []string{"Less", "LessEqual", "Greater", "GreaterEqual", "Equal"} {
					w := true
					for i := 1; i < len(ns); i++ {
						o, _ := ns[i-1].order(ns[i])
						w = w && relTest[op](o)
					}
					if op == "Equal" {
						w = true // the first against all others
						for _, x := range ns[1:] {
							o, _ := ns[0].order(x)
							w = w && o == 0
						}
						if w != eqAll {
							b.Count("not transitive", 1) // exact numbers around a real
							continue
						}
					}
					call := sfn(op, ts...)
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, boolT(w)) {
						b.Fail("compare-"+op, "gives %s, want %v", got.Src(), w)
					}
				}
				if n > 1 {
					// A chain of different operators, by source.
					b.Case(srcs)
					if got := s.Run(srcs); !same(got, boolT(want)) {
						b.Fail("chain", "gives %s, want %v", got.Src(), want)
					}
				}
				if n == 2 {
					call := sfn("Unequal", ts...)
					b.Case(call.Src())
					got := s.EvalT(call)
					if !same(got, boolT(!eqAll)) {
						b.Fail("unequal", "gives %s, want %v", got.Src(), !eqAll)
					}
				}
				// The largest and the smallest
				hi, lo := ns[0], ns[0]
				for _, x := range ns {
					if o, _ := x.order(hi); o > 0 {
						hi = x
					}
					if o, _ := x.order(lo); o < 0 {
						lo = x
					}
				}
				args := nestRandomly(b.R, ts)
				for _, m := range []struct {
					f string
					w cmpNumber
				}{{"Max", hi}, {"Min", lo}} {
					call := sfn(m.f, args...)
					b.Case(call.Src())
					got := s.EvalT(call)
					ok := false
					for _, x := range ns {
						o, _ := x.order(m.w)
						ok = ok || o == 0 && same(got, x.t)
					}
					if !ok {
						b.Fail("extreme", "gives %s, want %s", got.Src(), m.w.t.Src())
					}
				}
				for _, f := range []struct {
					n string
					w *T
				}{{"Sign", in(int64(ns[0].v.Sign()))}, {"Positive", boolT(ns[0].v.Sign() > 0)}, {"Negative", boolT(ns[0].v.Sign() < 0)}, {"NumberQ", boolT(true)}, {"AtomQ", boolT(true)}} {
					call := sfn(f.n, ts[0])
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, f.w) {
						b.Fail("sign", "gives %s, want %s", got.Src(), f.w.Src())
					}
				}
				b.Seen(ex(append([]*T{str(strings.Join(ops, " "))}, ts...)...).Key())
			}
		})
		c.Batch("constants", c.N(12, 40), func(b *B) {
			s := newSess()
			g := &realGen{r: b.R, funcs: true}
			for i := 0; i < 60; i++ {
				x, y := g.term(1+b.R.Intn(2)), g.term(1+b.R.Intn(2))
				if hasConj(x) || hasConj(y) {
					continue
				}
				p, q := errEval(x, nil), errEval(y, nil)
				if !p.ok || !q.ok || p.cut || q.cut || !wellPosed(x) || !wellPosed(y) || slowN(x) || slowN(y) {
					continue
				}
				d := real(p.v) - real(q.v)
				if d < 0 {
					d = -d
				}
				if d < 1e-6*(1+absC(p.v)) {
					continue
				}
				o := 1
				if real(p.v) < real(q.v) {
					o = -1
				}
				for _, op := range []string{"Less", "LessEqual", "Greater", "GreaterEqual", "Equal"} {
					call := sfn(op, x, y)
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, boolT(relTest[op](o))) {
						b.Fail("constant-"+op, "gives %s, the sides are about %v and %v", got.Src(), p.v, q.v)
					}
				}
				b.Seen(x.Key() + y.Key())
			}
		})
		c.Batch("symbols", c.N(24, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 120; i++ {
				gen := func() *T {
					switch b.R.Intn(5) {
					case 0:
						return genNum(b.R)
					case 1:
						return genTerm(b.R, 1)
					}
					return genPoly(b.R, b.R.Intn(3), false)
				}
				x := gen()
				y := gen()
				switch b.R.Intn(5) {
				case 0:
					y = x
				case 1:
					y = mutate(b.R, x)
				}
				if bigPower(x) || bigPower(y) {
					continue
				}
				op := pick(b.R, "Equal", "Equal", "Unequal", "Less", "GreaterEqual")
				call := sfn(op, x, y)
				b.Case(call.Src())
				got := s.EvalT(call)
				isT, isF := same(got, boolT(true)), same(got, boolT(false))
				vx, vy := s.EvalT(x), s.EvalT(y)
				switch op {
				case "Equal", "Unequal":
					rev := s.EvalT(sfn(op, y, x))
					other := map[string]string{"Equal": "Unequal", "Unequal": "Equal"}[op]
					neg := s.EvalT(sfn(other, x, y))
					if (isT || isF) && (same(rev, boolT(true)) || same(rev, boolT(false))) && !same(got, rev) {
						b.Fail("symmetry", "gives %s, the other way round %s", got.Src(), rev.Src())
					}
					if (isT || isF) && same(neg, got) {
						b.Fail("negation", "both it and its opposite give %s", got.Src())
					}
					if op == "Equal" && same(vx, vy) && !isT {
						b.Fail("reflexive", "identical sides, gives %s", got.Src())
					}
				}
				if isT || isF {
					// Decided: it has to be so whatever the symbols are.
					for k := 0; k < 2; k++ {
						env := randPoint(b.R)
						p, ok1 := exactEval(x, env)
						q, ok2 := exactEval(y, env)
						if !ok1 || !ok2 {
							break
						}
						var w bool
						switch op {
						case "Equal":
							w = p.eq(q)
						case "Unequal":
							w = !p.eq(q)
						default:
							if !p.isReal() || !q.isReal() {
								b.Fail("decided-order", "gives %s for sides that can be complex", got.Src())
								continue
							}
							w = relTest[op](p.re.Cmp(q.re))
						}
						if w != isT {
							b.Fail("decided", "gives %s, but with %v it is %v", got.Src(), env, w)
						}
					}
					hasSym := false
					for _, t := range []*T{vx, vy} {
						t.walk(func(n *T) { hasSym = hasSym || n.K == kSym && strings.HasPrefix(n.S, "Global`") })
					}
					if hasSym && !(same(asReals(vx), asReals(vy)) && (op == "Equal" || op == "Unequal")) {
						b.Fail("decided-symbols", "gives %s for %s and %s", got.Src(), vx.Src(), vy.Src())
					}
					b.Count("decided", 1)
				}
				for _, f := range []string{"SameQ", "UnsameQ"} {
					w := same(vx, vy) == (f == "SameQ")
					if got := s.EvalT(sfn(f, x, y)); !same(got, boolT(w)) {
						b.Fail("same", "%s gives %s for %s and %s", f, got.Src(), vx.Src(), vy.Src())
					}
				}
				b.Seen(call.Key())
			}
		})
		c.Batch("chains", c.N(24, 40), func(b *B) {
			// Chains with symbols: the result says the same for all values.
			s := newSess()
			for i := 0; i < 120; i++ {
				n := 2 + b.R.Intn(5)
				ts, ops, src := []*T{}, []string{}, ""
				for k := 0; k < n; k++ {
					t := in(int64(b.R.Intn(6)))
					if b.R.Intn(5) < 2 {
						t = sym(pick(b.R, "x", "y", "z"))
					} else if b.R.Intn(4) == 0 {
						t = rat(int64(1+2*b.R.Intn(5)), 2)
					}
					if k > 0 {
						op := pick(b.R, "Less", "LessEqual", "Greater", "GreaterEqual", "Equal")
						if k > 1 && b.R.Intn(2) == 0 {
							op = ops[k-2]
						}
						ops = append(ops, op)
						src += relOp[op]
					}
					ts = append(ts, t)
					src += ts[k].Src()
					if t.K == kRat {
						src = strings.TrimSuffix(src, t.Src()) + "(" + t.I.String() + "/" + t.D.String() + ")"
					}
				}
				b.Case(src)
				got := s.Run(src)
				for k := 0; k < 12; k++ {
					env := map[string]cq{}
					for _, n := range []string{"x", "y", "z"} {
						env["Global`"+n] = cqRat(big.NewRat(int64(b.R.Intn(13)-1), 2))
					}
					want := true
					for j, op := range ops {
						p, _ := exactEval(ts[j], env)
						q, _ := exactEval(ts[j+1], env)
						want = want && relTest[op](p.re.Cmp(q.re))
					}
					v, ok := evalRel(got, env)
					if !ok || v != want {
						b.Fail("chain-symbols", "gives %s, which is %v and not %v for %v", got.Src(), v, want, env)
						break
					}
				}
				b.Seen(src)
			}
		})
		c.Batch("sameq-many", c.N(6, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				pool := []*T{in(1), flt(1), rat(1, 2), sym("x"), str("x"), list(), list(sym("x")), genTerm(b.R, 2)}
				ts := []*T{}
				for k := 0; k < b.R.Intn(5); k++ {
					ts = append(ts, pickT(b.R, pool))
				}
				vs := []*T{}
				for _, t := range ts {
					vs = append(vs, s.EvalT(t))
				}
				all, none := true, true
				for i := range vs {
					for j := range vs[:i] {
						if same(vs[i], vs[j]) {
							none = false
						} else {
							all = false
						}
					}
				}
				for f, w := range map[string]bool{"SameQ": all, "UnsameQ": none} {
					call := sfn(f, ts...)
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, boolT(w)) {
						b.Fail("same-many", "gives %s, want %v", got.Src(), w)
					}
				}
				b.Seen(list(ts...).Key())
			}
		})
		c.Batch("extremes", c.N(12, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				ts := []*T{}
				for k := 0; k < b.R.Intn(6); k++ {
					switch b.R.Intn(3) {
					case 0:
						ts = append(ts, sym(pick(b.R, "x", "y", "z")))
					default:
						ts = append(ts, ratT(randSmallRat(b.R)))
					}
				}
				f := pick(b.R, "Max", "Min")
				call := sfn(f, nestRandomly(b.R, ts)...)
				b.Case(call.Src())
				got := s.EvalT(call)
				if len(ts) == 0 {
					w := sys("Infinity")
					if f == "Max" {
						w = sfn("Times", in(-1), w)
					}
					if !same(got, w) {
						b.Fail("extreme-empty", "gives %s", got.Src())
					}
					continue
				}
				for k := 0; k < 3; k++ {
					env := map[string]cq{}
					for _, n := range []string{"x", "y", "z"} {
						env["Global`"+n] = cqRat(randSmallRat(b.R))
					}
					var want *big.Rat
					for _, t := range ts {
						v, _ := exactEval(t, env)
						if want == nil || f == "Max" && v.re.Cmp(want) > 0 || f == "Min" && v.re.Cmp(want) < 0 {
							want = v.re
						}
					}
					sub := substT(got, env)
					if v := s.EvalT(sub); !same(v, ratT(want)) {
						b.Fail("extreme-symbols", "gives %s, at %v this is %s, want %s", got.Src(), env, v.Src(), want)
					}
				}
				// At most one number is left.
				nums := 0
				for _, a := range got.args() {
					if isNumT(a) {
						nums++
					}
				}
				if nums > 1 && !isNumT(got) {
					b.Fail("extreme-numbers", "leaves %d numbers: %s", nums, got.Src())
				}
				b.Seen(call.Key())
			}
		})
		c.Batch("predicates", c.N(12, 40), func(b *B) {
			s := newSess()
			r := b.R
			var num func(d int) *T
			num = func(d int) *T {
				switch k := r.Intn(9); {
				case k < 3 || d <= 0:
					return ratT(randSmallRat(r))
				case k == 3:
					return flt(float64(r.Intn(2000))/64 - 9)
				case k == 4:
					return cplx(in(int64(r.Intn(5)-2)), ratT(randSmallRat(r)))
				case k == 5:
					return sys(pick(r, "Pi", "E"))
				case k == 6:
					return sfn(pick(r, "Plus", "Times"), num(d-1), num(d-1))
				case k == 7:
					return sfn("Power", sfn("Plus", in(2), sfn("Power", sfn("Sqrt", in(int64(r.Intn(9)+1))), in(2))), rat(1, 2))
				}
				return sfn(pick(r, "Sin", "Cos", "Sqrt", "Log"), sfn("Plus", in(7), sfn("Power", rat(int64(r.Intn(9)+1), 4), in(2))))
			}
			yes := func(key string, t *T, want bool) {
				b.Case(t.Src())
				b.Seen(t.Key())
				if got := s.EvalT(t); !same(got, boolT(want)) {
					b.Fail(key, "gives %s, want %v", got.Src(), want)
				}
			}
			for i := 0; i < 60; i++ {
				n := num(3)
				if v, ok := numEval(n, nil); ok && absC(v) > 1e-6 && absC(v) < 1e6 {
					yes("numeric", sfn("NumericQ", n), true)
					yes("zero", sfn("PossibleZeroQ", n), false)
				}
				yes("numeric-symbol", sfn("NumericQ", sfn("Plus", sym(pick(r, "x", "y")), num(1), fn("h", num(1)))), false)
				yes("numeric-other", sfn("NumericQ", pickT(r, []*T{str("1"), list(n), fn("h", n), sym("x"), boolT(true), sfn("Rule", n, n)})), false)
				q := ratT(randSmallRat(r))
				x := sfn("Times", q, sym("x"))
				yes("zero-is", sfn("PossibleZeroQ", pickT(r, []*T{sfn("Plus", q, sfn("Times", in(-1), q)), sfn("Plus", x, sfn("Times", in(-1), x)), in(0), flt(0)})), true)
				t := pickT(r, []*T{boolT(true), boolT(false), sym("True1"), in(1), str("True"), fn("h", boolT(true)), list(boolT(true)), sym("x"), sfn("Less", sym("x"), in(1)), sfn("Less", in(1), in(2))})
				yes("boolean", sfn("BooleanQ", t), same(t, boolT(true)) || same(t, boolT(false)) || t.hasHead("Less") && len(t.args()) == 2 && same(t.args()[0], in(1)))
				var l []*T
				for k := 1 + r.Intn(6); k > 0; k-- {
					l = append(l, ratT(randSmallRat(r)))
				}
				lo, hi := ratOf(l[0]), ratOf(l[0])
				for _, e := range l {
					if v := ratOf(e); v.Cmp(lo) < 0 {
						lo = v
					} else if v.Cmp(hi) > 0 {
						hi = v
					}
				}
				m := sfn("MinMax", list(l...))
				b.Case(m.Src())
				if got := s.EvalT(m); !same(got, list(ratT(lo), ratT(hi))) {
					b.Fail("minmax", "gives %s", got.Src())
				}
				a, d := ratT(randSmallRat(r)), ratT(randSmallRat(r))
				if ratOf(d).Sign() != 0 {
					m := sfn("Divide", a, d)
					b.Case(m.Src())
					if got := s.EvalT(m); !same(got, ratT(new(big.Rat).Quo(ratOf(a), ratOf(d)))) {
						b.Fail("divide", "gives %s", got.Src())
					}
				}
				z := sfn("ReIm", sfn("Complex", a, d))
				b.Case(z.Src())
				if got := s.EvalT(z); !same(got, list(a, d)) {
					b.Fail("reim", "gives %s", got.Src())
				}
			}
		})
		c.Batch("logic", c.N(24, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 120; i++ {
				t := genLogic(b.R, 1+b.R.Intn(4))
				b.Case(t.Src())
				got := s.EvalT(t)
				for m := 0; m < 8; m++ {
					env := map[string]bool{"Global`p": m&1 > 0, "Global`q": m&2 > 0, "Global`r": m&4 > 0}
					w, _ := evalLogic(t, env)
					v, ok := evalLogic(got, env)
					if !ok || v != w {
						b.Fail("logic", "gives %s, which is %v and not %v for %v", got.Src(), v, w, env)
						break
					}
					if m%3 == 0 {
						sub := mapT(t, func(x *T) *T {
							if v, ok := env[x.S]; ok && x.K == kSym {
								return boolT(v)
							}
							return x
						}, "")
						if g := s.EvalT(sub); !same(g, boolT(w)) {
							b.Fail("logic-value", "%s gives %s, want %v", sub.Src(), g.Src(), w)
						}
						if g := s.EvalT(sfn("Boole", sub)); !same(g, in(map[bool]int64{false: 0, true: 1}[w])) {
							b.Fail("boole", "Boole of %s gives %s", sub.Src(), g.Src())
						}
					}
				}
				// Constants do not stay inside And and Or.
				left := false
				if !same(got, boolT(true)) && !same(got, boolT(false)) {
					got.walk(func(n *T) { left = left || same(n, boolT(true)) || same(n, boolT(false)) })
				}
				if left {
					b.Fail("logic-constants", "gives %s", got.Src())
				}
				b.Seen(t.Key())
			}
		})
	})
}

func bigPower(t *T) bool {
	big := false
	t.walk(func(x *T) {
		if x.hasHead("Power") {
			x.walk(func(y *T) { big = big || y.K == kInt && y.I.BitLen() > 20 })
		}
	})
	return big
}

func hasConj(t *T) bool {
	has := false
	t.walk(func(x *T) { has = has || x.hasHead("Conjugate") || x.hasHead("Im") || x.hasHead("Re") })
	return has
}

func asReals(t *T) *T {
	return mapT(t, func(x *T) *T {
		if isNumT(x) && x.K != kCplx {
			v, _ := numEval(x, nil)
			return str(fmt.Sprintf("%.11g", real(v)))
		}
		if x.K == kCplx {
			v, _ := numEval(x, nil)
			return str(fmt.Sprintf("%.11g", v))
		}
		return x
	}, "")
}

func slowN(t *T) bool {
	slow := false
	t.walk(func(x *T) {
		if x.hasHead("Exp") || x.hasHead("Power") {
			if v := errEval(x.A[len(x.A)-1], nil); absC(v.v) > 1e3 {
				slow = true
			}
			if v, ok := exactEval(x.A[1], nil); ok && v.re.Num().BitLen()+v.re.Denom().BitLen() > 60 {
				slow = true
			}
		}
	})
	return slow
}

func substT(t *T, env map[string]cq) *T {
	return mapT(t, func(x *T) *T {
		if v, ok := env[x.S]; ok && x.K == kSym {
			return v.T()
		}
		return x
	}, "")
}

// nestRandomly puts some of the elements into lists.
func nestRandomly(r *rand.Rand, ts []*T) []*T {
	out := []*T{}
	for i := 0; i < len(ts); {
		n := 1 + r.Intn(len(ts)-i)
		if r.Intn(2) == 0 {
			out = append(out, ts[i])
			i++
			continue
		}
		in := ts[i : i+n]
		if r.Intn(3) == 0 && n > 1 {
			in = nestRandomly(r, in)
		}
		out = append(out, list(in...))
		i += n
	}
	return out
}

func genLogic(r *rand.Rand, d int) *T {
	if d == 0 || r.Intn(6) == 0 {
		if r.Intn(4) == 0 {
			return boolT(r.Intn(2) == 0)
		}
		return sym(pick(r, "p", "q", "r"))
	}
	if r.Intn(4) == 0 {
		return sfn("Not", genLogic(r, d-1))
	}
	ts := []*T{}
	for i := 0; i < r.Intn(5); i++ {
		ts = append(ts, genLogic(r, d-1))
	}
	return sfn(pick(r, "And", "Or"), ts...)
}

// evalRel evaluates a combination of comparisons.
func evalRel(t *T, env map[string]cq) (bool, bool) {
	switch {
	case same(t, boolT(true)):
		return true, true
	case same(t, boolT(false)):
		return false, true
	case t.hasHead("And"):
		out, ok := true, true
		for _, a := range t.args() {
			v, k := evalRel(a, env)
			out, ok = out && v, ok && k
		}
		return out, ok
	case t.hasHead("Inequality"):
		if len(t.A)%2 != 0 || len(t.A) < 4 {
			return false, false
		}
		out, ok := true, true
		for i := 1; i+2 < len(t.A); i += 2 {
			v, k := evalRel(ex(t.A[i+1], t.A[i], t.A[i+2]), env)
			out, ok = out && v, ok && k
		}
		return out, ok
	}
	if t.K != kExpr || t.A[0].K != kSym || relTest[shortSym(t.A[0].S)] == nil {
		return false, false
	}
	for i := 1; i < len(t.A)-1; i++ {
		p, ok1 := exactEval(t.A[i], env)
		q, ok2 := exactEval(t.A[i+1], env)
		if !ok1 || !ok2 {
			return false, false
		}
		if !relTest[shortSym(t.A[0].S)](p.re.Cmp(q.re)) {
			return false, true
		}
	}
	return true, true
}

func evalLogic(t *T, env map[string]bool) (bool, bool) {
	if t.K == kSym {
		switch t.S {
		case "System`True":
			return true, true
		case "System`False":
			return false, true
		}
		v, ok := env[t.S]
		return v, ok
	}
	vs := []bool{}
	for _, a := range t.args() {
		v, ok := evalLogic(a, env)
		if !ok {
			return false, false
		}
		vs = append(vs, v)
	}
	switch {
	case t.hasHead("Not") && len(vs) == 1:
		return !vs[0], true
	case t.hasHead("And"):
		out := true
		for _, v := range vs {
			out = out && v
		}
		return out, true
	case t.hasHead("Or"):
		out := false
		for _, v := range vs {
			out = out || v
		}
		return out, true
	}
	return false, false
}
