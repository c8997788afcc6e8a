package main

import (
	"fmt"
	"strings"
)

var fixPool = strings.Split(`a|x|1|0|-3|5|1/2|2.5|I|"abc"|""|{}|{1,2,3}|{a,{b}}|{{1,2},{3,4}}|f[a]|f[]|x^2+1|x->1|{x->1}|x_|_|_Integer|x__|{i,3}|{i,1,0}|{1,-1}|Infinity|#+1&|True|Null|Sequence[]|Hold[x]|x==1|f|Plus|(x_:>x)|{{}}|{1,a,"s"}|-1|{0}|13|List|x>1|{x,2}|-x|2 x|Sqrt[x]|Sin[x]|1.|-2.5|{a,b,c}|{{a,b},{c,d}}|Slot[1]|{{1,2},{3}}|Complex[1,2.5]|f[g[x],1]|a&&b|x<2`, "|")

var fixNames = strings.Fields(`Plus Times Power Abs Sign Sqrt Sin Cos Tan Log Exp D Expand Together Numerator Denominator Coefficient Variables
And Or Not If Which Switch TrueQ BooleanQ Equal Unequal SameQ UnsameQ Less Greater LessEqual GreaterEqual Max Min Order
List Apply Map Select Cases Count MemberQ FreeQ Join Append Prepend First Last Rest Length Reverse Sort Union Flatten Total Range Part Take
Head Depth LeafCount Thread Fold Nest Array Table Sum Hold HoldForm Sequence Unevaluated Rule RuleDelayed Replace ReplaceAll MatchQ
StringJoin StringLength ToString N Re Im Conjugate Complex Rational Factorial GCD LCM Mod EvenQ PrimeQ Transpose Dot Det Inverse
AtomQ NumberQ IntegerQ CompoundExpression Module With Block Function Blank Pattern Composition Identity Tuples Permutations Complement Intersection`)

func init() {
	register("P06", "random", func(c *Ctx) {
		c.Batch("histories", c.N(140, 20), func(b *B) {
			g := evalGen{b.R}
			if b.Idx == 0 {
				b.Known("cached-value", func() (bool, string) {
					s := newSess()
					got := s.Run("x = {a, g[1]}; h = Hold[g[a]]; h[[1]]; a = 5; {x, h[[1]]}")
					return same(got, s.Parse("{{5, g[1]}, g[5]}")), "x = {a, g[1]}; h = Hold[g[a]]; h[[1]]; a = 5; {x, h[[1]]} gives " + got.Key()
				})
			}
			kept, fresh := newSess(), newSess()
			blank := func(s *Sess) *Sess {
				for _, n := range append([]string{"g", "h"}, evalNames...) {
					s.EvalT(sfn("ClearAll", sym(n)))
				}
				return s
			}
			for i := 0; i < 8; i++ {
				blank(kept)
				ops := []evalOp{}
				queries := []*T{}
				for step := 0; step < 14; step++ {
					if len(ops) < 3 || b.R.Intn(2) == 0 {
						o := g.op()
						ops = append(ops, o)
						kept.EvalT(o.t)
						b.Count("definitions", 1)
						continue
					}
					// new and earlier queries
					q := g.expr(1+b.R.Intn(3), len(evalNames))
					if len(queries) > 0 && b.R.Intn(2) == 0 {
						q = pickT(b.R, queries)
					}
					queries = append(queries, q)
					text := ""
					for _, o := range ops {
						text += o.t.Src() + "; "
					}
					b.Casef("%s%s", text, q.Src())
					if q.size() > 200 {
						continue
					}
					b.Seen(q.Key())
					b.Count("queries", 1)
					got := kept.EvalT(q)
					if got.size() > 4000 {
						continue
					}
					if again := kept.EvalT(q); !same(got, again) {
						b.Fail("repeated", "%s%s gives %s, and %s when evaluated again", text, q.Src(), clip(got.Key(), 150), clip(again.Key(), 150))
					}
					if again := kept.EvalT(got); !same(got, again) {
						b.Fail("fixpoint", "%s%s gives %s, which evaluates to %s", text, q.Src(), clip(got.Key(), 150), clip(again.Key(), 150))
					}
					// the definitions alone
					blank(fresh)
					for _, o := range ops {
						fresh.EvalT(o.t)
					}
					if want := fresh.EvalT(q); !same(got, want) {
						b.Fail("history", "%s%s gives %s after other inputs, %s without", text, q.Src(), clip(got.Key(), 150), clip(want.Key(), 150))
					}
					// the definitions that are left
					live := []evalOp{}
					for _, o := range ops {
						name := o.key
						if name[0] == '-' {
							name = name[1:]
							rest := []evalOp{}
							for _, l := range live {
								if l.key[:2] != name[:2] {
									rest = append(rest, l)
								}
							}
							live = rest
							continue
						}
						old := false
						for k := range live {
							if live[k].key == o.key {
								live[k] = o
								old = true
							}
						}
						if !old {
							live = append(live, o)
						}
					}
					min := blank(fresh)
					for _, o := range live {
						min.EvalT(o.t)
					}
					if want := min.EvalT(q); !same(got, want) {
						left := ""
						for _, o := range live {
							left += o.t.Src() + "; "
						}
						b.Fail("redefinition", "%s%s gives %s; with only %s it gives %s", text, q.Src(), clip(got.Key(), 150), left, clip(want.Key(), 150))
					}
				}
			}
		})
		c.Batch("chains", c.N(16, 10), func(b *B) {
			s := newSess()
			n := 1 + b.R.Intn(700)
			heads := []string{"k1", "k2", "k3"}[:1+b.R.Intn(3)]
			for i, h := range heads {
				next := heads[(i+1)%len(heads)]
				s.Runf("%s[0] = done; %s[n_] := %s[n - 1]", h, h, next)
			}
			s.Run("w1[{x_, r___}, {l___}] := w1[{r}, {x, l}]; w2[x___, y_Integer, r___] := w2[x, r]")
			b.Casef("%d steps through %v", n, heads)
			b.Seen(fmt.Sprint(n, heads))
			b.Count("steps", int64(n))
			if got := s.Runf("%s[%d]", heads[0], n); !same(got, sym("done")) {
				b.Fail("chain", "a chain of %d rewrites ends with %s", n, clip(got.Key(), 100))
			}
			xs, rev := []*T{}, []*T{}
			for i := 0; i < 1+n%90; i++ {
				xs = append(xs, in(int64(i)))
				rev = append([]*T{in(int64(i))}, rev...)
			}
			if got, want := s.EvalT(fn("w1", list(xs...), list())), fn("w1", list(), list(rev...)); !same(got, want) {
				b.Fail("chain", "w1 ends with %s", clip(got.Key(), 100))
			}
			if len(xs) < 25 {
				if got := s.EvalT(fn("w2", xs...)); !same(got, fn("w2")) {
					b.Fail("chain", "w2 ends with %s", clip(got.Key(), 100))
				}
			}
			if got := s.Runf("x /. x -> Nest[If[Head[#] === Integer, # + 1, #] &, 0, %d]", n); !same(got, in(int64(n))) {
				b.Fail("chain", "Nest gives %s", clip(got.Key(), 100))
			}
			// values through values
			for i := 1; i <= 60; i++ {
				s.Runf("q%d := q%d", i, i-1)
			}
			s.Run("q0 := {nn, 2}; nn = 7")
			if got := s.Run("q60"); !same(got, list(in(7), in(2))) {
				b.Fail("chain", "a chain of values ends with %s", clip(got.Key(), 100))
			}
		})
		c.Batch("builtins", c.N(120, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 60; i++ {
				args := []string{}
				for k := b.R.Intn(4); k > 0; k-- {
					a := pick(b.R, fixPool...)
					if b.R.Intn(6) == 0 {
						a = pick(b.R, fixNames...) + "[" + pick(b.R, fixPool...) + "]"
					}
					args = append(args, a)
				}
				src := pick(b.R, fixNames...) + "[" + strings.Join(args, ", ") + "]"
				b.Case(src)
				b.Seen(src)
				r := s.Run(src)
				if s.es.HasThrown() {
					s.es.Throw(nil)
					continue
				}
				if r.size() > 500 {
					continue
				}
				b.Count("builtin results", 1)
				r2 := s.EvalT(r)
				if s.es.HasThrown() {
					s.es.Throw(nil)
				}
				if !same(r, r2) {
					b.Fail("builtin-fixpoint", "%s gives %s, which evaluates to %s", src, clip(r.Key(), 150), clip(r2.Key(), 150))
				}
			}
		})
	})
}
