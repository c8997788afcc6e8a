package main

import (
	"fmt"
	"math/rand"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/matcher"
)

func patNames(p *T) []*T {
	seen := map[string]bool{}
	out := []*T{}
	p.walk(func(x *T) {
		if x.hasHead("Pattern") && len(x.A) == 3 && !seen[x.A[1].S] {
			seen[x.A[1].S] = true
			out = append(out, x.A[1])
		}
	})
	return out
}

// genRHS makes a right-hand side from the names of a pattern.
func genRHS(r *rand.Rand, names []*T, d int) *T {
	if d == 0 || r.Intn(3) == 0 {
		if len(names) > 0 && r.Intn(4) > 0 {
			return names[r.Intn(len(names))]
		}
		return pickT(r, []*T{sym("k"), in(7), sym("a"), sym("b"), str("t")})
	}
	a := []*T{pickT(r, []*T{sym("f"), sym("g"), sys("List"), sym("h"), sym("oo")})}
	for k := r.Intn(4); k > 0; k-- {
		a = append(a, genRHS(r, names, d-1))
	}
	return ex(a...)
}

// genRule makes a rule for some part of t.
func genRule(g *patGen, t *T, norm func(*T) *T) rrule {
	r := g.r
	ns := nodes(t)
	sub := ns[r.Intn(len(ns))]
	if r.Intn(8) == 0 {
		sub = norm(g.term(1))
	}
	g.bound = map[string]string{}
	ru := rrule{lhs: norm(g.single(sub, 2, false)), delayed: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		ru.lhs = sub
	}
	names := patNames(ru.lhs)
	ru.rhs = genRHS(r, names, 2)
	if !ru.delayed {
		ru.rhs = norm(ru.rhs)
	}
	if ru.delayed && len(names) > 0 && r.Intn(4) == 0 {
		v := names[r.Intn(len(names))]
		ru.cond = pickT(r, []*T{sfn("SameQ", v, sub), sfn("UnsameQ", v, g.atom()), sfn("IntegerQ", v), sys("True")})
	}
	return ru
}

func init() {
	register("P08", "random rules made from parts of random terms: ReplaceAll with one rule and with lists, Replace, ReplaceRepeated and ReplacePart give the result of a reference rewriter built on the reference matcher (cases with several possible results are left out); the substitution API replaces exactly the bound names; immediate and delayed right-hand sides are evaluated as often as they should be; distinct = distinct (term, rules) pairs", func(c *Ctx) {
		c.Batch("rules", c.N(240, 20), func(b *B) {
			s := newSess()
			s.Run(pgSetup)
			m := newRefMatcher()
			norm := func(t *T) *T { return s.EvalT(t) }
			for i := 0; i < 200; i++ {
				g := newPatGen(b.R)
				t := norm(g.term(1 + b.R.Intn(3)))
				rules := []rrule{}
				for k := 1 + b.R.Intn(4); len(rules) < k && (len(rules) == 0 || b.R.Intn(2) == 0); {
					rules = append(rules, genRule(g, t, norm))
				}
				rts := []*T{}
				for _, ru := range rules {
					rts = append(rts, ru.T())
				}
				rt := list(rts...)
				if len(rules) == 1 && b.R.Intn(3) > 0 {
					rt = rts[0]
				}
				held := b.R.Intn(4) == 0
				subject := t
				if held {
					subject = sfn("Hold", t)
				}
				op := pick(b.R, "ReplaceAll", "ReplaceAll", "ReplaceAll", "Replace", "ReplaceRepeated")
				b.Casef("%s[%s, %s]", op, subject, rt)
				var want *T
				steps := 0
				if !m.try(func() {
					switch op {
					case "ReplaceAll":
						want = subject
						for _, ru := range rules {
							want = m.replaceAll(want, ru)
						}
					case "Replace":
						want = subject
						for _, ru := range rules {
							if r, ok := m.image(subject, ru.lhs, ru); ok {
								want = r
								break
							}
						}
					case "ReplaceRepeated":
						want = subject
						for {
							steps++
							next := want
							for _, ru := range rules {
								next = m.replaceAll(next, ru)
							}
							next = s.EvalT(next)
							if same(next, want) {
								return
							}
							want = next
							if steps > 12 || want.size() > 300 {
								panic(rmTooMany{})
							}
						}
					}
				}) {
					b.Count("skipped_ambiguous", 1)
					continue
				}
				want = s.EvalT(want)
				got := s.EvalT(sfn(op, subject, rt))
				if !same(got, want) {
					b.Fail(op, "gives %s\nwant  %s", got, want)
					continue
				}
				if !same(want, subject) {
					b.Count("replaced", 1)
				}
				b.Seen(op + subject.Key() + rt.Key())
			}
		})
		c.Batch("times", c.N(16, 10), func(b *B) {
			s := newSess()
			for i := 0; i < 60; i++ {
				n := 1 + b.R.Intn(5)
				xs := []*T{}
				for k := 0; k < n; k++ {
					xs = append(xs, pickT(b.R, []*T{sym("a"), fn("f", sym("a")), fn("g", sym("b"))}))
				}
				t := list(xs...)
				cnt := 0
				t.walk(func(x *T) {
					if x.K == kSym && x.S == "Global`a" {
						cnt++
					}
				})
				b.Casef("nn = 0; %s /. a :> (nn = nn + 1)", t)
				// Delayed: once for every replacement, after it.
				s.Run("nn = 0")
				got := s.Runf("%s /. a :> (nn = nn + 1)", t)
				k := int64(0)
				var num func(x *T) *T
				num = func(x *T) *T {
					if x.K == kSym && x.S == "Global`a" {
						k++
						return in(k)
					}
					if x.K == kExpr {
						out := []*T{}
						for _, y := range x.A {
							out = append(out, num(y))
						}
						return ex(out...)
					}
					return x
				}
				if want := num(t); !same(got, want) || !same(s.Run("nn"), in(int64(cnt))) {
					b.Fail("delayed", "gives %s, want %s; counter %s, want %d", got, want, s.Run("nn"), cnt)
				}
				s.Run("nn = 0")
				got = s.Runf("%s /. a -> (nn = nn + 1)", t)
				want := (&refMatcher{}).replaceAllSimple(t, sym("a"), in(1))
				if !same(got, want) || !same(s.Run("nn"), in(1)) {
					b.Fail("immediate", "gives %s, want %s; counter %s, want 1", got, want, s.Run("nn"))
				}
				got = s.Runf("Hold[%s] /. a :> 1 + 1", t)
				want = sfn("Hold", (&refMatcher{}).replaceAllSimple(t, sym("a"), sfn("Plus", in(1), in(1))))
				if !same(got, want) {
					b.Fail("held", "gives %s, want %s", got, want)
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("substitution", c.N(32, 20), func(b *B) {
			s := newSess()
			for i := 0; i < 500; i++ {
				t := genTerm(b.R, 1+b.R.Intn(4))
				env := rmEnv{}
				pm := matcher.EmptyPD()
				syms := []string{}
				t.walk(func(x *T) {
					if x.K == kSym {
						syms = append(syms, x.S)
					}
				})
				syms = append(syms, "Global`qq")
				for k := 1 + b.R.Intn(3); k > 0; k-- {
					n := syms[b.R.Intn(len(syms))]
					v := genTerm(b.R, b.R.Intn(3))
					if b.R.Intn(6) == 0 {
						v = sfn("Sequence", v, sym("w"))
					}
					env[n] = v
					pm.Define(n, v.Ex())
				}
				b.Casef("%s with %s", t, env.key())
				e := t.Ex()
				got := fromEx(matcher.ReplacePD(e, s.es, pm))
				var sub func(x *T) *T
				sub = func(x *T) *T {
					if x.K == kSym {
						if v, ok := env[x.S]; ok {
							return v
						}
					}
					if x.K == kExpr {
						out := []*T{}
						for i, y := range x.A {
							z := sub(y)
							if i > 0 && y.K == kSym && env[y.S] != nil && z.hasHead("Sequence") && !seqHold[out[0].String()] {
								out = append(out, z.A[1:]...)
							} else {
								out = append(out, z)
							}
						}
						return ex(out...)
					}
					return x
				}
				if want := sub(t); !same(got, want) {
					b.Fail("substitute", "gives %s\nwant  %s", got, want)
				}
				if !same(fromEx(e), t) {
					b.Fail("substitute-input", "the input became %s", fromEx(e))
				}
				if h1, h2 := fromEx(pm.Expression()), env; len(h1.A)-1 != len(h2) {
					b.Fail("bindings", "%d bindings given, %s remain", len(h2), h1)
				} else {
					for _, ru := range h1.A[1:] {
						if v, ok := env[ru.A[1].S]; !ok || !same(v, ru.A[2]) {
							b.Fail("bindings", "binding %s", ru)
						}
					}
				}
				b.Seen(t.Key() + env.key())
			}
			_ = atoms.NewInt
		})
		c.Batch("parts", c.N(24, 20), func(b *B) {
			s := newSess()
			for i := 0; i < 200; i++ {
				g := newPatGen(b.R)
				t := g.term(1 + b.R.Intn(3))
				for t.K != kExpr {
					t = g.term(2)
				}
				t = s.EvalT(t)
				// Positions of parts.
				var poss [][]int
				var walk func(x *T, p []int)
				walk = func(x *T, p []int) {
					if x.K != kExpr {
						return
					}
					for k := 1; k < len(x.A); k++ {
						q := append(append([]int{}, p...), k)
						poss = append(poss, q)
						walk(x.A[k], q)
					}
				}
				walk(t, nil)
				poss = append(poss, []int{9}, []int{1, 7})
				want := t
				rules := []*T{}
				used := map[string]bool{}
				for k := 1 + b.R.Intn(3); k > 0; k-- {
					p := poss[b.R.Intn(len(poss))]
					// A part inside of a replaced part stays as it is replaced.
					clash := false
					for j := range p {
						if used[fmt.Sprint(p[:j+1])] {
							clash = true
						}
					}
					for _, q := range poss {
						if used[fmt.Sprint(q)] && len(q) >= len(p) && fmt.Sprint(q[:len(p)]) == fmt.Sprint(p) {
							clash = true
						}
					}
					if clash {
						continue
					}
					used[fmt.Sprint(p)] = true
					v := sym(fmt.Sprintf("r%d", k))
					want = setPart(want, p, v)
					var lhs *T
					if len(p) == 1 && b.R.Intn(2) == 0 {
						lhs = in(int64(p[0]))
					} else {
						l := []*T{}
						for _, j := range p {
							l = append(l, in(int64(j)))
						}
						lhs = list(l...)
					}
					rules = append(rules, sfn("Rule", lhs, v))
				}
				b.Casef("ReplacePart[%s, %s]", t, list(rules...))
				got := s.EvalT(sfn("ReplacePart", t, list(rules...)))
				if w := s.EvalT(want); !same(got, w) {
					b.Fail("ReplacePart", "gives %s\nwant  %s", got, w)
				}
				b.Seen(t.Key() + list(rules...).Key())
			}
		})
	})
}

// replaceAllSimple replaces a symbol.
func (m *refMatcher) replaceAllSimple(t, a, v *T) *T {
	if same(t, a) {
		return v
	}
	if t.K != kExpr {
		return t
	}
	out := make([]*T, len(t.A))
	for i, x := range t.A {
		out[i] = m.replaceAllSimple(x, a, v)
	}
	return ex(out...)
}

// setPart replaces the part at a position, if there is one.
func setPart(t *T, p []int, v *T) *T {
	if len(p) == 0 {
		return v
	}
	if t.K != kExpr || p[0] >= len(t.A) {
		return t
	}
	out := append([]*T{}, t.A...)
	out[p[0]] = setPart(out[p[0]], p[1:], v)
	return ex(out...)
}

// Heads with the attribute SequenceHold or HoldAllComplete.
var seqHold = map[string]bool{"Timing": true, "Rule": true, "RuleDelayed": true, "Set": true, "SetDelayed": true, "HoldComplete": true}
