package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/corywalker/expreduce/expreduce/iterspec"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// iterGen is one iterator and the values it goes through.
type iterGen struct {
	v    *T // variable
	spec *T
	vals []*T
	ok   bool
}

// ratOrFlt makes a number with an exactly representable value.
func iterNum(r *rand.Rand, kind int) (*T, *big.Rat, bool) {
	switch kind {
	case 0:
		i := int64(r.Intn(13) - 4)
		return in(i), big.NewRat(i, 1), false
	case 1:
		q := big.NewRat(int64(r.Intn(25)-8), int64(1+r.Intn(4)))
		return ratT(q), q, false
	case 2:
		f := float64(r.Intn(33)-8) / 4
		q := new(big.Rat)
		q.SetFloat64(f)
		return flt(f), q, true
	}
	// Near 2^63.
	b := new(big.Int).Lsh(big.NewInt(1), 63)
	b.Add(b, big.NewInt(int64(r.Intn(9)-4)))
	return bigT(b), new(big.Rat).SetInt(b), false
}

func genIter(r *rand.Rand, v *T) iterGen {
	g := iterGen{v: v, ok: true}
	if r.Intn(4) == 0 {
		n := r.Intn(5)
		for k := 0; k < n; k++ {
			g.vals = append(g.vals, pickT(r, []*T{in(int64(r.Intn(5))), sym("a"), fn("h", sym("b")), list(in(1), sym("c")), str("s"), rat(1, 3), flt(0.5)}))
		}
		g.spec = list(v, list(g.vals...))
		return g
	}
	kinds := []int{0, 0, 0, 1, 2}
	k1, k2, k3 := kinds[r.Intn(5)], kinds[r.Intn(5)], kinds[r.Intn(5)]
	if r.Intn(12) == 0 {
		k1, k2 = 3, 3
	}
	one := big.NewRat(1, 1)
	minT, min, minF := in(1), one, false
	stepT, step, stepF := in(1), one, false
	maxT, max, _ := iterNum(r, k2)
	form := r.Intn(4)
	if k1 == 3 && form == 0 {
		form = 1
	}
	if form > 0 {
		minT, min, minF = iterNum(r, k1)
	}
	if form == 3 {
		for {
			if k1 == 3 {
				k3 = 0
			}
			stepT, step, stepF = iterNum(r, k3)
			if step.Sign() != 0 || r.Intn(4) == 0 {
				break
			}
		}
	}
	switch form {
	case 0:
		g.spec = list(v, maxT)
	case 1, 2:
		g.spec = list(v, minT, maxT)
	case 3:
		g.spec = list(v, minT, maxT, stepT)
		if step.Sign() == 0 {
			g.ok = false
			return g
		}
	}
	cur := new(big.Rat).Set(min)
	for (step.Sign() > 0 && cur.Cmp(max) <= 0) || (step.Sign() < 0 && cur.Cmp(max) >= 0) {
		if minF || stepF {
			f, _ := new(big.Float).SetRat(cur).Float64()
			g.vals = append(g.vals, flt(f))
			// Sums of machine numbers are rounded.
			if k := new(big.Rat).SetFloat64(f); k.Cmp(cur) != 0 {
				g.ok = false
				g.spec = nil
				return g
			}
		} else {
			g.vals = append(g.vals, ratT(cur))
		}
		cur = rAdd(cur, step)
	}
	return g
}

// usable is genIter without the forms that depend on rounding.
func usableIter(r *rand.Rand, v *T, needOk bool) iterGen {
	for {
		g := genIter(r, v)
		if g.spec != nil && (g.ok || !needOk) {
			return g
		}
	}
}

func odometer(gs []iterGen, f func(vals []*T)) {
	n := len(gs)
	idx := make([]int, n)
	for _, g := range gs {
		if len(g.vals) == 0 {
			return
		}
	}
	for {
		vals := make([]*T, n)
		for i, g := range gs {
			vals[i] = g.vals[idx[i]]
		}
		f(vals)
		k := n - 1
		for ; k >= 0; k-- {
			idx[k]++
			if idx[k] < len(gs[k].vals) {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

func iterDefs(es expreduceapi.EvalStateInterface) map[string]string {
	return defsOf(es, func(n string) bool { return strings.HasPrefix(n, "Global`") && n != "Global`log" && n != "Global`cc" })
}

func init() {
	register("P14", "random iterators (integer, rational, real and list iterators, up to three together, with steps of both signs): the iterspec API enumerates exactly the specified values, in odometer order, and stays not-ok on malformed ones; Do, Table, ParallelTable, Sum, Product and Range evaluate the body once for each combination, in order, and leave the variables as they were, also when the body throws; distinct = distinct iterator specs", func(c *Ctx) {
		c.Batch("api", c.N(64, 20), func(b *B) {
			s := newSess()
			s.Run("bnd = 4")
			for i := 0; i < 400; i++ {
				v := pickT(b.R, []*T{sym("i"), sym("j"), fn("x", in(1)), fn("y", sym("k"))})
				if b.R.Intn(6) == 0 {
					// Malformed.
					bad := pickT(b.R, []*T{list(v), list(), in(3), sym("q"), list(v, sym("q")), list(v, in(1), sym("q")), list(v, in(1), in(2), sym("q")),
						list(v, in(1), in(2), in(3), in(4)), list(in(1), in(2)), list(str("i"), in(1), in(2)), list(v, in(1), list(in(1), in(2))), list(v, in(1), in(3), in(0)),
						list(v, in(1), in(3), flt(0)), list(v, in(1), in(3), cplx(in(0), in(1))), list(v, str("a")), fn("f", v, in(2)), list(v, sys("Infinity"))})
					b.Casef("SpecFromList(%s)", bad)
					if _, ok := iterspec.SpecFromList(s.es, bad.Ex()); ok {
						b.Fail("malformed", "accepted")
					}
					if _, ok := iterspec.MultiSpecFromLists(s.es, []expreduceapi.Ex{usableIter(b.R, v, true).spec.Ex(), bad.Ex()}); ok {
						b.Fail("malformed-multi", "accepted")
					}
					b.Seen(bad.Key())
					continue
				}
				g := usableIter(b.R, v, true)
				sp := g.spec
				if len(g.spec.A) == 3 && g.spec.A[2].K == kInt && b.R.Intn(3) == 0 {
					// The limit is evaluated.
					n := g.spec.A[2]
					sp = list(v, pickT(b.R, []*T{sfn("Plus", in(-4), n, sym("bnd")), sfn("Times", in(1), n), sfn("CompoundExpression", in(1), n)}))
				}
				b.Casef("SpecFromList(%s)", sp)
				in0 := sp.Ex()
				is, ok := iterspec.SpecFromList(s.es, in0)
				if !ok {
					b.Fail("rejected", "not ok")
					continue
				}
				got := []*T{}
				for is.Cont() && len(got) <= len(g.vals)+2 {
					got = append(got, fromEx(is.GetCurr()))
					is.Next()
				}
				if srcs(got) != srcs(g.vals) || list(got...).Key() != list(g.vals...).Key() {
					b.Fail("values", "gives %s\nwant  %s", srcs(got), srcs(g.vals))
				}
				if !same(fromEx(in0), sp) {
					b.Fail("input", "the specification became %s", fromEx(in0))
				}
				b.Seen(sp.Key())
			}
		})
		c.Batch("multi", c.N(64, 20), func(b *B) {
			s := newSess()
			s.Run("i = 7; f0[x_] := x + 1; x[0] = zero; y[q_] := gen[q]; y[2] = two; j[5] = jj; Attributes[k] = {Listable}; k[3] = kk")
			for n := 0; n < 100; n++ {
				gs := []iterGen{}
				vs := shuffleT(b.R, []*T{sym("i"), sym("j"), sym("k"), fn("x", in(1)), fn("x", in(0)), fn("y", in(2))})
				// Different names, as the values are found by name.
				used := map[string]bool{}
				for _, v := range vs {
					nm := v.S
					if v.K == kExpr {
						nm = v.A[0].S
					}
					if used[nm] || len(gs) == 3 || (len(gs) > 0 && b.R.Intn(3) == 0) {
						continue
					}
					used[nm] = true
					g := usableIter(b.R, v, true)
					for len(g.vals) > 7 {
						g = usableIter(b.R, v, true)
					}
					gs = append(gs, g)
				}
				specs := []expreduceapi.Ex{}
				ts := []*T{}
				for _, g := range gs {
					specs = append(specs, g.spec.Ex())
					ts = append(ts, g.spec)
				}
				b.Casef("MultiSpecFromLists(%s)", srcs(ts))
				before := iterDefs(s.es)
				mis, ok := iterspec.MultiSpecFromLists(s.es, specs)
				if !ok {
					b.Fail("rejected", "not ok")
					continue
				}
				want := [][]*T{}
				odometer(gs, func(vals []*T) { want = append(want, vals) })
				k := 0
				mis.TakeVarSnapshot(s.es)
				for mis.Cont() && k <= len(want) {
					if k < len(want) {
						mis.DefineCurrent(s.es)
						pd := map[string]*T{}
						for _, ru := range fromEx(mis.CurrentPDManager().Expression()).A[1:] {
							pd[ru.A[1].S] = ru.A[2]
						}
						for m, g := range gs {
							if got := s.EvalT(g.v); !same(got, want[k][m]) {
								b.Fail("defined", "in combination %d %s is %s, want %s", k, g.v, got, want[k][m])
							}
							nm := g.v.S
							if g.v.K == kExpr {
								nm = g.v.A[0].S
							}
							if pd[nm] == nil || !same(pd[nm], want[k][m]) {
								b.Fail("bindings", "in combination %d %s is bound to %v, want %s", k, nm, pd[nm], want[k][m])
							}
						}
						if len(pd) != len(gs) {
							b.Fail("bindings", "%d bindings for %d iterators", len(pd), len(gs))
						}
					}
					k++
					mis.Next()
				}
				if k != len(want) {
					b.Fail("combinations", "%d combinations or more, want %d", k, len(want))
				}
				mis.RestoreVarSnapshot(s.es)
				if d := diffDefs(before, iterDefs(s.es)); d != "" {
					b.Fail("restore", "%s", d)
				}
				b.Count("combinations", int64(len(want)))
				b.Seen(srcs(ts))
			}
		})
		c.Batch("language", c.N(160, 12), func(b *B) {
			s := newSess()
			s.Run("i = 7; x[0] = zero; y[q_] := gen[q]; g0[q_] := {q, i}; k[3] = kk")
			for n := 0; n < 60; n++ {
				gs := []iterGen{}
				vs := shuffleT(b.R, []*T{sym("i"), sym("j"), sym("k"), sym("m")})
				if b.R.Intn(4) == 0 {
					vs[0] = fn("x", in(1))
				}
				size := 1
				for len(gs) < 1+b.R.Intn(3) && len(gs) < 3 {
					g := usableIter(b.R, vs[len(gs)], true)
					for len(g.vals)*size > 40 {
						g = usableIter(b.R, vs[len(gs)], true)
					}
					size *= len(g.vals) + 1
					gs = append(gs, g)
				}
				specs := []*T{}
				body := []*T{sym("f")}
				for _, g := range gs {
					specs = append(specs, g.spec)
					body = append(body, g.v)
				}
				bt := ex(body...)
				terms := []*T{}
				odometer(gs, func(vals []*T) { terms = append(terms, fn("f", vals...)) })
				op := pick(b.R, "Do", "Table", "Table", "Sum", "Product", "ParallelTable", "DoThrow", "TableThrow", "SumThrow", "Nested", "Dynamic")
				if op == "ParallelTable" && gs[0].v.K == kExpr {
					op = "Table"
				}
				b.Casef("%s over %s", op, srcs(specs))
				before := iterDefs(s.es)
				logged := func(t *T) *T {
					return sfn("CompoundExpression", sfn("Set", sym("log"), sfn("Append", sym("log"), bt)), t)
				}
				s.Run("log = {}")
				var got, want *T
				wantLog := list(terms...)
				call := func(h string, body *T) *T { return s.EvalT(sfn(h, append([]*T{body}, specs...)...)) }
				fold := func(h string) *T {
					return s.EvalT(sfn(h, terms...))
				}
				switch op {
				case "Do":
					got, want = call("Do", logged(in(1))), sys("Null")
				case "Table":
					got, want = call("Table", logged(bt)), list(terms...)
				case "ParallelTable":
					got, want = call("ParallelTable", bt), list(terms...)
					wantLog = list()
				case "Sum":
					got, want = call("Sum", logged(bt)), fold("Plus")
				case "Product":
					got, want = call("Product", logged(bt)), fold("Times")
				case "DoThrow", "TableThrow", "SumThrow":
					// Leave at some combination.
					if len(terms) == 0 {
						continue
					}
					stop := b.R.Intn(len(terms))
					for t := range terms {
						if same(terms[t], terms[stop]) {
							stop = t
							break
						}
					}
					h := strings.TrimSuffix(op, "Throw")
					got = s.EvalT(sfn("Catch", sfn(h, append([]*T{logged(sfn("If", sfn("SameQ", bt, terms[stop]), sfn("Throw", fn("out", bt)), in(1)))}, specs...)...)))
					want = fn("out", terms[stop])
					wantLog = list(terms[:stop+1]...)
				case "Nested":
					inner := bt
					for k := len(gs) - 1; k >= 0; k-- {
						inner = sfn("Table", inner, specs[k])
					}
					got = s.EvalT(inner)
					var build func(k int, vals []*T) *T
					build = func(k int, vals []*T) *T {
						if k == len(gs) {
							return fn("f", append([]*T{}, vals...)...)
						}
						out := []*T{}
						for _, v := range gs[k].vals {
							out = append(out, build(k+1, append(append([]*T{}, vals...), v)))
						}
						return list(out...)
					}
					want = build(0, nil)
					wantLog = list()
				case "Dynamic":
					// The variable has its value while functions are called from the body.
					iv := in(7)
					ts := []*T{}
					odometer(gs, func(vals []*T) {
						v := iv
						for k, g := range gs {
							if same(g.v, sym("i")) {
								v = vals[k]
							}
						}
						ts = append(ts, list(sym("z"), v))
					})
					got, want = call("Table", fn("g0", sym("z"))), list(ts...)
					wantLog = list()
				}
				if !same(got, want) {
					b.Fail(op, "gives %s\nwant  %s", got, want)
				}
				if l := s.Run("log"); !same(l, wantLog) {
					b.Fail(op+"-events", "evaluated %s\nwant      %s", l, wantLog)
				}
				if d := diffDefs(before, iterDefs(s.es)); d != "" {
					b.Fail(op+"-restore", "%s", d)
				}
				b.Seen(op + srcs(specs))
			}
		})
		c.Batch("range", c.N(32, 20), func(b *B) {
			s := newSess()
			for n := 0; n < 150; n++ {
				g := usableIter(b.R, sym("i"), false)
				if len(g.vals) > 200 {
					continue
				}
				args := g.spec.A[2:]
				if len(args) == 1 && args[0].hasHead("List") {
					continue
				}
				t := sfn("Range", args...)
				b.Case(t.String())
				want := list(g.vals...)
				if !g.ok {
					want = t
				}
				if got := s.EvalT(t); !same(got, want) {
					b.Fail("Range", "gives %s\nwant  %s", got, want)
				}
				// Sums of the variable have closed forms.
				v := pickT(b.R, []*T{sym("i"), sfn("Times", in(2), sym("i")), sfn("Plus", sym("i"), in(3)), sfn("Power", sym("i"), in(2))})
				if g.ok {
					st := sfn("Sum", v, g.spec)
					b.Case(st.String())
					env := map[string]cq{}
					sum := cqInt(0)
					exact := true
					for _, x := range g.vals {
						q, ok := cqOf(x)
						exact = exact && ok && x.K != kFlt
						if !exact {
							break
						}
						env["Global`i"] = q
						y, ok := exactEval(v, env)
						exact = exact && ok
						if exact {
							sum = sum.add(y)
						}
					}
					if exact {
						if got := s.EvalT(st); !same(got, sum.T()) {
							b.Fail("Sum", "gives %s, want %s", got, sum.T())
						}
					}
				}
				if b.R.Intn(3) == 0 {
					k := b.R.Intn(6)
					el := pickT(b.R, []*T{sym("a"), in(4), fn("f", sym("b"))})
					ws := []*T{}
					as := []*T{}
					for q := 1; q <= k; q++ {
						ws = append(ws, el)
						as = append(as, fn("f", in(int64(q))))
					}
					for _, p := range [][2]*T{{sfn("Table", el, in(int64(k))), list(ws...)}, {sfn("ConstantArray", el, in(int64(k))), list(ws...)}, {sfn("Array", sym("f"), in(int64(k))), list(as...)}, {sfn("ParallelTable", el, in(int64(k))), list(ws...)}} {
						b.Case(p[0].String())
						if got := s.EvalT(p[0]); !same(got, p[1]) {
							b.Fail("copies", "gives %s, want %s", got, p[1])
						}
					}
					// Symbolic limits, then a value for the limit.
					m := int64(b.R.Intn(9))
					src := pick(b.R, "Sum[i,{i,q}]", "Sum[i,{i,0,q}]", "Sum[i,{i,1,q}]", "Sum[i,{i,2*q}]")
					b.Casef("%s /. q -> %d", src, m)
					w := s.Run(strings.ReplaceAll(src, "q", fmt.Sprint(m)))
					if got := s.Runf("(%s) /. q -> %d", src, m); !same(got, w) {
						b.Fail("symbolic", "gives %s, the sum itself gives %s", got, w)
					}
				}
				b.Seen(t.Key())
			}
		})
	})
}
