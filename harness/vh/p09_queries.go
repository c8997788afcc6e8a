package main

import (
	"math/rand"
)

// depthT is Depth: 1 for atoms, heads do not count.
func depthT(t *T) int {
	if t.K != kExpr {
		return 1
	}
	d := 1
	for _, a := range t.A[1:] {
		if k := depthT(a); k > d {
			d = k
		}
	}
	return d + 1
}

const lvInf = 1 << 20

// levSpec is a level specification: bounds, negative ones count from below.
type levSpec struct {
	t        *T
	min, max int
}

func (l levSpec) has(level, depth int) bool {
	ok := true
	if l.min >= 0 {
		ok = level >= l.min
	} else {
		ok = depth <= -l.min
	}
	if l.max >= 0 {
		return ok && level <= l.max
	}
	return ok && depth >= -l.max
}

func genLevSpec(r *rand.Rand) levSpec {
	num := func() (*T, int) {
		if r.Intn(8) == 0 {
			return sys("Infinity"), lvInf
		}
		k := r.Intn(9) - 4
		return in(int64(k)), k
	}
	switch r.Intn(4) {
	case 0:
		t, n := num()
		return levSpec{t, 1, n}
	case 1:
		t, n := num()
		return levSpec{list(t), n, n}
	}
	t, m := num()
	u, n := num()
	return levSpec{list(t, u), m, n}
}

// mapLevels applies f to the selected parts, inner parts first.
func mapLevels(t *T, l levSpec, level int, pos []int, f func(x *T, pos []int) *T) *T {
	d := depthT(t)
	out := t
	if t.K == kExpr {
		a := []*T{t.A[0]}
		for i, x := range t.A[1:] {
			a = append(a, mapLevels(x, l, level+1, append(append([]int{}, pos...), i+1), f))
		}
		out = ex(a...)
	}
	if l.has(level, d) {
		return f(out, pos)
	}
	return out
}

func init() {
	register("P09", "random terms with patterns made from their parts: Cases, Count, DeleteCases, MemberQ, FreeQ and Switch select exactly the parts that the reference matcher says match, Select and AllTrue those that pass the test, in order; Count, Map, MapIndexed and Apply with level specifications act on exactly the parts at these levels; distinct = distinct (operation, term, pattern)", func(c *Ctx) {
		c.Batch("queries", c.N(160, 16), func(b *B) {
			s := newSess()
			s.Run(pgSetup)
			m := newRefMatcher()
			for i := 0; i < 120; i++ {
				g := newPatGen(b.R)
				t := s.EvalT(g.term(1 + b.R.Intn(3)))
				ns := nodes(t)
				if t.K == kExpr && b.R.Intn(2) == 0 && len(t.A) > 1 {
					ns = t.A[1:]
				}
				sub := ns[b.R.Intn(len(ns))]
				p := s.EvalT(g.single(sub, 2, false))
				if b.R.Intn(5) == 0 {
					p = sub
				}
				matches := func(x *T) bool {
					m.budget = 20000
					return len(m.match(x, p, rmEnv{})) > 0
				}
				type qa struct {
					name string
					q, w *T
				}
				var qs []qa
				add := func(name string, q, w *T) { qs = append(qs, qa{name, q, w}) }
				if !m.try(func() {
					if t.K == kExpr {
						ok, no := []*T{}, []*T{t.A[0]}
						for _, x := range t.A[1:] {
							if matches(x) {
								ok = append(ok, x)
							} else {
								no = append(no, x)
							}
						}
						add("Cases", sfn("Cases", t, p), list(ok...))
						cr := []*T{}
						for _, x := range ok {
							cr = append(cr, s.EvalT(fn("got", x, sym("h"))))
						}
						add("CasesRule", sfn("Cases", t, sfn("Rule", sfn("Pattern", sym("whole"), p), fn("got", sym("whole"), sym("h")))), list(cr...))
						add("Count", sfn("Count", t, p), in(int64(len(ok))))
						add("DeleteCases", sfn("DeleteCases", t, p), s.EvalT(ex(no...)))
						add("MemberQ", sfn("MemberQ", t, p), boolT(len(ok) > 0))
						all := 0
						first := 0
						var walk func(x *T)
						walk = func(x *T) {
							if x.K != kExpr {
								return
							}
							for _, y := range x.A[1:] {
								if matches(y) {
									all++
								}
								walk(y)
							}
						}
						walk(t)
						_ = first
						add("CountAll", sfn("Count", t, p, sys("Infinity")), in(int64(all)))
					} else {
						add("MemberQ", sfn("MemberQ", t, p), boolT(false))
					}
					r := m.replaceAll(t, rrule{lhs: p, rhs: sym("zzz")})
					add("FreeQ", sfn("FreeQ", t, p), boolT(same(r, t)))
					p2 := s.EvalT(g.single(sub, 1, false))
					p3 := s.EvalT(g.atom())
					pats := shuffleT(b.R, []*T{p, p2, p3})
					sw := []*T{sub}
					var w *T
					for k, q := range pats {
						sw = append(sw, q, fn("case", in(int64(k))))
						m.budget = 20000
						if w == nil && len(m.match(sub, q, rmEnv{})) > 0 {
							w = fn("case", in(int64(k)))
						}
					}
					if w == nil {
						w = sfn("Switch", sw...)
					}
					add("Switch", sfn("Switch", sw...), w)
				}) {
					b.Count("skipped_large", 1)
					continue
				}
				for _, q := range qs {
					b.Case(q.q.String())
					got := s.EvalT(q.q)
					if !same(got, q.w) {
						b.Fail(q.name, "gives %s\nwant  %s", got, q.w)
					}
					b.Seen(q.q.Key())
				}
				if len(qs) > 0 && same(qs[len(qs)-2].w, boolT(false)) {
					b.Count("not_free", 1)
				}
			}
		})
		c.Batch("select", c.N(32, 16), func(b *B) {
			s := newSess()
			s.Run(pgSetup)
			for i := 0; i < 120; i++ {
				g := newPatGen(b.R)
				h := pickT(b.R, []*T{sys("List"), sym("f")})
				a := []*T{h}
				for k := b.R.Intn(8); k > 0; k-- {
					a = append(a, s.EvalT(g.term(b.R.Intn(2))))
				}
				t := ex(a...)
				name := pick(b.R, "System`IntegerQ", "System`EvenQ", "System`AtomQ", "System`NumberQ", "System`ListQ", "Global`noB")
				test := pgTests[name]
				max := 100
				args := []*T{t, &T{K: kSym, S: name}}
				if b.R.Intn(3) == 0 {
					max = b.R.Intn(4)
					args = append(args, in(int64(max)))
				}
				w := []*T{h}
				all := true
				for _, x := range a[1:] {
					if test(x) && len(w) <= max {
						w = append(w, x)
					}
					all = all && test(x)
				}
				q := sfn("Select", args...)
				b.Case(q.String())
				if got := s.EvalT(q); !same(got, ex(w...)) {
					b.Fail("Select", "gives %s\nwant  %s", got, ex(w...))
				}
				if h.hasHead("Symbol") && h.S == "System`List" {
					q = sfn("AllTrue", t, args[1])
					b.Case(q.String())
					if got := s.EvalT(q); !same(got, boolT(all)) {
						b.Fail("AllTrue", "gives %s, want %v", got, all)
					}
				}
				b.Seen(q.Key())
			}
		})
		c.Batch("levels", c.N(64, 16), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				// Inert heads, so that structure is all that matters.
				var gen func(d int) *T
				gen = func(d int) *T {
					if d == 0 || b.R.Intn(4) == 0 {
						return pickT(b.R, []*T{sym("a"), sym("b"), in(1), in(2), str("s"), rat(1, 2)})
					}
					h := pickT(b.R, []*T{sym("h"), sym("k"), sys("List"), sys("List"), sys("List"), sym("h")})
					a := []*T{h}
					for k := b.R.Intn(4); k > 0; k-- {
						a = append(a, gen(d-1))
					}
					return ex(a...)
				}
				t := gen(1 + b.R.Intn(4))
				l := genLevSpec(b.R)
				p := pickT(b.R, []*T{sfn("Blank"), sfn("Blank", sys("Integer")), sfn("Blank", sys("List")), sym("a"), sfn("Blank", sym("h"))})
				ok := func(x *T) bool {
					m := newRefMatcher()
					m.budget = 20000
					return len(m.match(x, p, rmEnv{})) > 0
				}
				n := 0
				var count func(x *T, level int)
				count = func(x *T, level int) {
					if l.has(level, depthT(x)) && ok(x) {
						n++
					}
					if x.K == kExpr {
						for _, y := range x.A[1:] {
							count(y, level+1)
						}
					}
				}
				count(t, 0)
				type qa struct {
					name string
					q, w *T
				}
				qs := []qa{
					{"Count", sfn("Count", t, p, l.t), in(int64(n))},
					{"Map", sfn("Map", sym("ff"), t, l.t), mapLevels(t, l, 0, nil, func(x *T, _ []int) *T { return fn("ff", x) })},
					{"MapIndexed", sfn("MapIndexed", sym("ff"), t, l.t), mapLevels(t, l, 0, nil, func(x *T, pos []int) *T {
						ps := []*T{}
						for _, k := range pos {
							ps = append(ps, in(int64(k)))
						}
						return fn("ff", x, list(ps...))
					})},
					{"Apply", sfn("Apply", sym("ff"), t, l.t), mapLevels(t, l, 0, nil, func(x *T, _ []int) *T {
						if x.K != kExpr {
							return x
						}
						return ex(append([]*T{sym("ff")}, x.A[1:]...)...)
					})},
				}
				// Without a specification: level 1, Apply at level 0; any
				// expression can be the function.
				h := pickT(b.R, []*T{sym("ff"), fn("ff", sym("p")), sfn("Function", list(sfn("Slot", in(1))))})
				app := func(a ...*T) *T {
					if h.hasHead("Function") {
						return list(a[0])
					}
					return ex(append([]*T{h}, a...)...)
				}
				l1, l0 := levSpec{nil, 1, 1}, levSpec{nil, 0, 0}
				qs = append(qs,
					qa{"Map", sfn("Map", h, t), mapLevels(t, l1, 0, nil, func(x *T, _ []int) *T { return app(x) })},
					qa{"MapIndexed", sfn("MapIndexed", h, t), mapLevels(t, l1, 0, nil, func(x *T, pos []int) *T { return app(x, list(in(int64(pos[0])))) })})
				if t.K == kExpr && len(t.A) > 1 {
					qs = append(qs, qa{"Apply", sfn("Apply", h, t), mapLevels(t, l0, 0, nil, func(x *T, pos []int) *T {
						if x != t && len(pos) == 0 {
							return app(x.A[1:]...)
						}
						return x
					})})
				}
				for _, q := range qs {
					b.Case(q.q.String())
					if got := s.EvalT(q.q); !same(got, q.w) {
						b.Fail(q.name+"-levels", "gives %s\nwant  %s", got, q.w)
					}
					b.Seen(q.q.Key())
				}
				b.Count("selected", int64(n))
				if d := s.EvalT(sfn("Depth", t)); !same(d, in(int64(depthT(t)))) {
					b.Fail("Depth", "Depth[%s] gives %s", t, d)
				}
			}
		})
		c.Batch("parts", c.N(32, 16), func(b *B) {
			s := newSess()
			for i := 0; i < 200; i++ {
				var gen func(d int) *T
				gen = func(d int) *T {
					if d == 0 || b.R.Intn(5) == 0 {
						return pickT(b.R, []*T{sym("a"), sym("b"), in(1), in(2), str("s"), flt(2.5)})
					}
					a := []*T{pickT(b.R, []*T{sym("h"), sys("List"), fn("h", sym("a"))})}
					for k := b.R.Intn(5); k > 0; k-- {
						a = append(a, gen(d-1))
					}
					return ex(a...)
				}
				t := gen(1 + b.R.Intn(4))
				if t.K != kExpr {
					continue
				}
				type qa struct {
					name string
					q, w *T
				}
				var qs []qa
				add := func(name string, q, w *T) { qs = append(qs, qa{name, q, w}) }
				add("Length", sfn("Length", t), in(int64(len(t.A)-1)))
				add("Head", sfn("Head", t), t.A[0])
				if len(t.A) > 1 {
					add("First", sfn("First", t), t.A[1])
					add("Last", sfn("Last", t), t.A[len(t.A)-1])
					add("Rest", sfn("Rest", t), ex(append([]*T{t.A[0]}, t.A[2:]...)...))
				}
				var leaves func(x *T) int
				leaves = func(x *T) int {
					if x.K != kExpr {
						return 1
					}
					n := 0
					for _, y := range x.A {
						n += leaves(y)
					}
					return n
				}
				add("LeafCount", sfn("LeafCount", t), in(int64(leaves(t))))
				// Part: integers, All and spans, down a path that exists.
				var build func(x *T, depth int) ([]*T, func(x *T) *T)
				build = func(x *T, depth int) ([]*T, func(x *T) *T) {
					if depth == 0 || x.K != kExpr {
						return nil, func(x *T) *T { return x }
					}
					switch k := b.R.Intn(6); {
					case k == 0:
						return []*T{in(0)}, func(x *T) *T { return x.A[0] }
					case k < 4 && len(x.A) > 1:
						j := 1 + b.R.Intn(len(x.A)-1)
						sp, g := build(x.A[j], depth-1)
						return append([]*T{in(int64(j))}, sp...), func(x *T) *T { return g(x.A[j]) }
					case k == 4 && len(x.A) > 1:
						lo := 1 + b.R.Intn(len(x.A)-1)
						hi := lo + b.R.Intn(len(x.A)-lo)
						return []*T{sfn("Span", in(int64(lo)), in(int64(hi)))}, func(x *T) *T {
							return ex(append([]*T{x.A[0]}, x.A[lo:hi+1]...)...)
						}
					}
					// All: the rest of the path must exist in every part.
					m := 1 << 30
					for _, y := range x.A[1:] {
						if y.K != kExpr {
							m = 0
						} else if len(y.A)-1 < m {
							m = len(y.A) - 1
						}
					}
					sp, g := []*T(nil), func(x *T) *T { return x }
					if m > 0 && m < 1<<30 && b.R.Intn(3) > 0 {
						j := 1 + b.R.Intn(m)
						sp, g = []*T{in(int64(j))}, func(x *T) *T { return x.A[j] }
					}
					return append([]*T{sys("All")}, sp...), func(x *T) *T {
						out := []*T{x.A[0]}
						for _, y := range x.A[1:] {
							out = append(out, g(y))
						}
						return ex(out...)
					}
				}
				for k := 0; k < 3; k++ {
					sp, g := build(t, 1+b.R.Intn(3))
					if len(sp) > 0 {
						add("Part", sfn("Part", append([]*T{t}, sp...)...), g(t))
					}
				}
				// ReplacePart at positions that exist, single or several.
				var pos []int
				cur := t
				for cur.K == kExpr && len(cur.A) > 1 && (len(pos) == 0 || b.R.Intn(2) == 0) {
					j := 1 + b.R.Intn(len(cur.A)-1)
					pos = append(pos, j)
					cur = cur.A[j]
				}
				if len(pos) > 0 {
					var rp func(x *T, pos []int) *T
					rp = func(x *T, pos []int) *T {
						if len(pos) == 0 {
							return sym("new")
						}
						a := append([]*T{}, x.A...)
						a[pos[0]] = rp(a[pos[0]], pos[1:])
						return ex(a...)
					}
					ps := []*T{}
					for _, j := range pos {
						ps = append(ps, in(int64(j)))
					}
					key := list(ps...)
					if len(ps) == 1 && b.R.Intn(2) == 0 {
						key = ps[0]
					}
					add("ReplacePart", sfn("ReplacePart", t, sfn("Rule", key, sym("new"))), rp(t, pos))
				}
				for _, q := range qs {
					b.Case(q.q.String())
					if got := s.EvalT(q.q); !same(got, q.w) {
						b.Fail(q.name, "gives %s\nwant  %s", got, q.w)
					}
					b.Seen(q.q.Key())
				}
			}
		})
	})
}
