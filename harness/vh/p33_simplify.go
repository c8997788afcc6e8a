package main

import (
	"fmt"
	"math/rand"
)

// boolGen makes formulas over some statements.
type boolGen struct {
	r     *rand.Rand
	atoms []*T
}

func (g boolGen) formula(d int) *T {
	r := g.r
	if d <= 0 || r.Intn(6) == 0 {
		switch r.Intn(12) {
		case 0:
			return boolT(r.Intn(2) == 0)
		case 1, 2:
			return sfn("Not", pickT(r, g.atoms))
		}
		return pickT(r, g.atoms)
	}
	if r.Intn(5) == 0 {
		return sfn("Not", g.formula(d-1))
	}
	if r.Intn(3) == 0 {
		// The same statement on two levels, with others around it.
		h, k := "And", "Or"
		if r.Intn(2) == 0 {
			h, k = k, h
		}
		u := pickT(r, g.atoms)
		if r.Intn(3) == 0 {
			u = g.formula(1)
		}
		w := u
		if r.Intn(2) == 0 {
			w = sfn("Not", u)
		}
		more := func(l *T) *T {
			a := []*T{l}
			for n := r.Intn(3); n > 0; n-- {
				a = append(a, g.formula(r.Intn(2)))
			}
			return list(shuffleT(r, a)...)
		}
		inner := sfn(h, more(w).args()...)
		if r.Intn(4) == 0 {
			inner = sfn("Not", inner)
		}
		outer := more(u).args()
		at := r.Intn(len(outer) + 1)
		outer = append(outer[:at:at], append([]*T{inner}, outer[at:]...)...)
		return sfn(k, outer...)
	}
	var a []*T
	for n := 2 + r.Intn(3); n > 0; n-- {
		a = append(a, g.formula(d-1))
	}
	if r.Intn(12) == 0 {
		a = a[:1]
	}
	return sfn(pick(r, "And", "Or"), a...)
}

// truth evaluates a formula; ok is false if it is none over the atoms.
func truth(t *T, val map[string]bool) (v, ok bool) {
	if w, is := val[t.Key()]; is {
		return w, true
	}
	switch {
	case same(t, boolT(true)):
		return true, true
	case same(t, boolT(false)):
		return false, true
	case t.hasHead("Not") && len(t.args()) == 1:
		v, ok := truth(t.args()[0], val)
		return !v, ok
	case t.hasHead("And"), t.hasHead("Or"):
		and := t.hasHead("And")
		v := and
		for _, a := range t.args() {
			w, ok := truth(a, val)
			if !ok {
				return false, false
			}
			if w != and {
				v = !and
			}
		}
		return v, true
	}
	return false, false
}

func init() {
	register("P33", "random formulas with And, Or and Not simplified and compared over all assignments of truth values; random terms with powers, roots, complex numbers and elementary functions simplified and compared numerically with error bounds at random points; distinct = distinct calls", func(c *Ctx) {
		sess := func() *Sess { return keptSess("p33", "") }
		call := func(b *B, t *T) (*T, string) {
			src := t.Src()
			b.Case(src)
			b.Seen(src)
			return sess().EvalT(t), src
		}
		c.Batch("logic", c.N(100, 20), func(b *B) {
			r := b.R
			g := boolGen{r, []*T{sym("a"), sym("b"), sym("c"), sym("d"), fn("h", sym("x")), fn("h", in(2)), sfn("Less", sym("x"), sym("y")), sfn("Equal", sym("x"), in(1))}}
			shuffle := shuffleT(r, g.atoms)
			g.atoms = shuffle[:2+r.Intn(4)]
			for i := 0; i < 12; i++ {
				t := g.formula(1 + r.Intn(3))
				if t.size() > 40 {
					continue
				}
				f := pick(r, "Simplify", "Simplify", "Simplify", "FullSimplify", "Identity")
				got, src := call(b, sfn(f, t))
				n := len(g.atoms)
				for m := 0; m < 1<<n; m++ {
					val := map[string]bool{}
					for j, a := range g.atoms {
						val[a.Key()] = m>>j&1 == 1
					}
					want, ok := truth(t, val)
					if !ok {
						break
					}
					v, ok := truth(got, val)
					if !ok {
						b.Fail("formula", "%s gives %s, which is no formula over the same statements", src, got.Src())
						break
					}
					if v != want {
						b.Fail("logic", "%s gives %s, which is %v instead of %v for %v", src, got.Src(), v, want, val)
						break
					}
					b.Count("assignments", 1)
				}
				// Formulas in the places of arguments.
				if r.Intn(5) == 0 {
					in, src := call(b, sfn(f, list(fn("w", t), t)))
					if !in.hasHead("List") || len(in.args()) != 2 || !same(in.args()[1], got) || !same(in.args()[0], fn("w", got)) {
						b.Fail("within", "%s gives %s, but alone it gives %s", src, in.Src(), got.Src())
					}
				}
			}
		})
		c.Batch("values", c.N(80, 20), func(b *B) {
			r := b.R
			g := calcGen{r}
			for i := 0; i < 10; i++ {
				t := g.term(1 + r.Intn(4))
				if r.Intn(3) == 0 {
					t = sfn(pick(r, "Plus", "Times"), t, pickT(r, []*T{cplx(in(0), in(1)), cplx(in(1), in(-2)), sfn("Times", cplx(in(0), in(1)), sym("x"))}), g.term(1))
				}
				switch r.Intn(4) {
				case 0:
					// Forms Simplify knows.
					u := g.term(1)
					t = pickT(r, []*T{
						sfn("Times", rat(1, 2), g.leaf(), sfn("Plus", in(1), sfn("Times", in(-1), sfn("Cos", u)))),
						sfn("Times", rat(1, 2), g.leaf(), sfn("Plus", in(int64(r.Intn(5)-2)), sfn("Times", in(int64(r.Intn(5)-2)), sfn("Cos", u)))),
						sfn("Times", rat(1, 2), sfn("Plus", sym("y"), sfn("Times", pickT(r, []*T{sym("y"), sfn("Times", in(-1), sym("y"))}), sfn("Cos", u)))),
						sfn("Plus", sfn("Times", rat(1, 2), sym("y")), sfn("Times", rat(-1, 2), sym("y"), sfn("Cos", u))),
						sfn("Power", sfn("Plus", u, in(1)), in(int64(2+r.Intn(5)))),
						sfn("Plus", sfn("Times", in(6), u), sfn("Times", in(4), sym("y")), sfn("Times", in(-8), sym("x"))),
						sfn("Sqrt", sfn("Plus", sfn("Times", in(4), u), sfn("Times", in(12), sym("y")))),
						sfn("Plus", sfn("Power", sys("E"), sym("x")), sfn("Power", sys("E"), sfn("Times", in(-1), sym("x")))),
						sfn("Times", sfn("Power", in(-1), rat(int64(r.Intn(11)-5), int64(2+r.Intn(3)))), sfn("Plus", in(1), sfn("Times", cplx(in(0), in(1)), sfn("Sqrt", in(3))))),
						sfn("Power", sys("E"), sfn("Times", cplx(in(0), in(int64(r.Intn(5)-2))), sym("x"))),
						sfn("Power", sys("E"), sfn("Plus", sym("y"), sfn("Times", cplx(in(0), rat(1, 2)), u))),
						sfn("Times", sfn("Plus", sym("x"), in(1)), sfn("Power", sfn("Plus", sfn("Power", sym("x"), in(2)), in(-1)), in(-1))),
					})
				}
				if t.size() > 45 {
					continue
				}
				b.Case(t.Src())
				t = sess().EvalT(t)
				if t.size() > 60 {
					continue
				}
				f := pick(r, "Simplify", "Simplify", "FullSimplify", "ComplexExpand", "PSimplify", "ExpandAll", "Together")
				got, src := call(b, sfn(f, t))
				if f == "Simplify" && r.Intn(4) == 0 {
					w, _ := call(b, sfn(f, list(t, fn("w", t))))
					if !same(w, list(got, fn("w", got))) {
						b.Fail("within", "%s gives %s, within a list it gives %s", src, got.Src(), w.Src())
					}
				}
				ok, n, at := sameValues(r, got, t, func() map[string]complex128 { return posEnv(r, "x", "y", "z") })
				if !ok {
					b.Fail(f, "%s gives %s: %s", src, clip(got.Src(), 300), at)
				}
				if n > 0 {
					b.Count("judged", 1)
				}
				// Nothing is simplified by becoming undefined.
				for _, s := range []string{"Indeterminate", "ComplexInfinity"} {
					in := func(t *T) (y bool) {
						t.walk(func(t *T) { y = y || same(t, sys(s)) })
						return
					}
					if in(got) && !in(t) && n == 0 {
						if x, y := errEval(t, posEnv(r, "x", "y", "z")), fmt.Sprint(at); x.ok && !x.cut && y == "" {
							b.Fail("undefined", "%s gives %s", src, clip(got.Src(), 300))
						}
					}
				}
			}
		})
	})
}
