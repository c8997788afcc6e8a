package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

var p02Skip = map[string]bool{"LoadRubi": true, "ExpreduceSetLogging": true, "SeedRandom": true, "Timing": true, "AbsoluteTiming": true,
	"Set": true, "SetDelayed": true, "Print": true, "Unique": true, "Module": true, "Random": true, "RandomReal": true, "RandomInteger": true, "RandomChoice": true,
	"While": true, "For": true, "Trace": true, "WriteString": true, "Pause": true, "ParallelTable": true, "Reap": true, "Sow": true, "Throw": true, "Catch": true, "Rest": false}

func init() {
	values := strings.Split(`{3,4,5}|{1/2,2.5,3+I}|7|12|-5|2/3|2.5|1+2I|{a,b,f[c]}|{{1,2},{3,4}}|x^2+2x+1|f[x,y]|g[2,1]|"str"|{x->1,y->2}|x:>x+1|Hold[1+1]|#+1&|Function[q,q^2]|{5,{4,{3}}}|a+b+c|2*x*y|{}|f[]|{"b","a"}|{c,b,a}|Sin[x]|{1,2,3,4,5,6}|13|0|{{a,b},{c,d}}|x==1|a&&b|x_Integer|_|{_,x_}|h[1][2]|{2,2,1}|-x|Infinity|20|"x"|x|{x,0,3}|100|{{2,1},{1,3}}|p[q]/;q>1|1-x|f`, "|")
	register("P02", "every builtin function applied to variables that hold values of every kind: after each call all user definitions, and at the end of each session all system definitions, equal the snapshot taken before, and a second call gives the same result; terms evaluated through the API equal their snapshot afterwards; delayed definitions of random programs re-run from the same state give the same results and stay as they were written; distinct = distinct calls or programs", func(c *Ctx) {
		names := []string{}
		for _, n := range builtinNames(newSess()) {
			if !assignOps[n] && !p02Skip[n] {
				names = append(names, n)
			}
		}
		// The number of the next local name.
		isSys := func(k string) bool { return strings.HasPrefix(k, "System`") && k != "System`$ModuleNumber" }
		user := func(k string) bool { return strings.HasPrefix(k, "Global`") }
		c.Batch("calls", c.N(160, 12), func(b *B) {
			s := newSess()
			set := func() {
				for i := 1; i <= 6; i++ {
					s.Runf("v%d = %s", i, values[b.R.Intn(len(values))])
				}
				s.Runf("w1 := {v%d, %s}", 1+b.R.Intn(6), values[b.R.Intn(len(values))])
				s.Runf("fn1[a_] := {a, v%d}; fn2[a_, b_] := f[b, a, %s]", 1+b.R.Intn(6), values[b.R.Intn(len(values))])
			}
			set()
			sysBefore := defsOf(s.es, func(k string) bool { return isSys(k) })
			ub := defsOf(s.es, user)
			for i := 0; i < 150; i++ {
				if i%30 == 29 {
					set()
					ub = defsOf(s.es, user)
				}
				n := names[b.R.Intn(len(names))]
				k := 1 + b.R.Intn(3)
				as := []string{}
				for j := 0; j < k; j++ {
					switch b.R.Intn(8) {
					case 0:
						as = append(as, values[b.R.Intn(len(values))])
					case 1:
						as = append(as, "w1")
					case 2:
						as = append(as, pick(b.R, "fn1", "fn2", "fn1[v1]", "fn2[v2,v3]", "1", "2", "x"))
					default:
						as = append(as, fmt.Sprintf("v%d", 1+b.R.Intn(6)))
					}
				}
				src := n + "[" + strings.Join(as, ", ") + "]"
				if b.R.Intn(6) == 0 {
					src = fmt.Sprintf("%s[%s, %s]", pick(b.R, "Map", "Apply", "Fold", "Select", "Scan", "Array"), n, as[0])
				}
				b.Casef("%s with v1..v6 = %s", src, s.Form(expreduce.EvalInterp("Map[Hold,{v1,v2,v3,v4,v5,v6,w1}]", s.es), "FullForm"))
				var r1, r2 *T
				if p := guard(func() {
					e := parser.Interp(src, s.es)
					before := fromEx(e)
					r1 = fromEx(s.es.Eval(e))
					if after := fromEx(e); !same(after, before) {
						b.Fail("input", "evaluating %s changed the input to %s", before, after)
					}
					if d := diffDefs(ub, defsOf(s.es, user)); d != "" {
						b.Fail("definition", "%s: %s", src, d)
						set()
						ub = defsOf(s.es, user)
						return
					}
					r2 = fromEx(s.es.Eval(e))
					if noUniq(r1.Key()) != noUniq(r2.Key()) {
						b.Fail("repeat", "%s gives %s, then %s", src, r1, r2)
					}
				}); p != nil {
					// Crashes are decided by P18.
					b.Count("crashes", 1)
					return
				}
				if s.es.HasThrown() {
					s.es.Throw(nil)
				}
				b.Count("calls", 2)
				b.Seen(src + "->" + r1.Key())
			}
			b.Case("system definitions after the calls")
			// Remembered results (as of Fibonacci) may be added.
			if d := diffDefsMod(sysBefore, defsOf(s.es, func(k string) bool { return isSys(k) }), true); d != "" {
				b.Fail("system-definition", "%s", d)
			}
			b.Count("system_definitions", int64(len(sysBefore)))
		})
		c.Batch("terms", c.N(64, 20), func(b *B) {
			s := newSess()
			s.Run("SetAttributes[oo, Orderless]; SetAttributes[ff, Flat]; SetAttributes[ll, Listable]; SetAttributes[hh, HoldAll]; k1[p_] := {p, p}; k2[p_Integer] := p + 1; k3[p__] := f[p]; rr = {x -> y, f[a_] :> a}")
			heads := strings.Split("List Plus Times Power And Or Rule Equal Sin StringJoin Not Rational Complex Join Reverse Sort Max Union", " ")
			var gen func(d int) *T
			gen = func(d int) *T {
				if d == 0 {
					return pickT(b.R, []*T{in(int64(b.R.Intn(9) - 2)), sym("x"), sym("a"), str("s"), flt(2.5), sfn("Rational", in(int64(b.R.Intn(9)-4)), in(4)), {K: kRat, I: bigT(randBig(b.R)).I, D: in(int64(b.R.Intn(6) - 2)).I}, cplx(rat(1, 2), in(int64(b.R.Intn(3))))})
				}
				h := pickT(b.R, []*T{sym("f"), sym("oo"), sym("ff"), sym("ll"), sym("hh"), sym("k1"), sym("k2"), sym("k3"), sys(heads[b.R.Intn(len(heads))]), sys(heads[b.R.Intn(len(heads))]), sfn("Function", sfn("Plus", sfn("Slot", in(1)), in(1))), sfn("Sequence", sym("q"))})
				a := []*T{h}
				for k := b.R.Intn(4); k > 0; k-- {
					x := gen(d - 1)
					if b.R.Intn(8) == 0 {
						x = sfn(pick(b.R, "Sequence", "Unevaluated", "Evaluate"), x)
					}
					a = append(a, x)
				}
				return ex(a...)
			}
			for i := 0; i < 300; i++ {
				t := gen(1 + b.R.Intn(4))
				e := t.Ex()
				b.Case(t.Src())
				var r1 *T
				if guard(func() {
					r1 = fromEx(s.es.Eval(e))
					if now := fromEx(e); !same(now, t) {
						b.Fail("input", "evaluating %s changed it to %s", t, now)
						return
					}
					if r2 := fromEx(s.es.Eval(e)); !same(r1, r2) {
						b.Fail("repeat", "%s gives %s, then %s", t, r1, r2)
					}
				}) != nil {
					b.Count("crashes", 1)
					continue
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("delayed", c.N(64, 20), func(b *B) {
			s := newSess()
			for i := 0; i < 12; i++ {
				g := newProg(b.R)
				body := g.expr(4)
				if b.R.Intn(3) == 0 {
					body = "(cc = cc + 1; {cc, " + body + "})"
				}
				form, call := "kk[]", "kk[]"
				switch b.R.Intn(6) {
				case 0:
					form, call = "kk", "kk"
				case 1:
					form, call = "kk[_]", "kk["+g.atom()+"]"
				case 2:
					form, call = "kk[p_]", "kk["+g.atom()+"]"
				case 3:
					form, call = "kk[p_, q___]", "kk["+g.atom()+", "+g.atom()+"]"
				case 4:
					form, call = "kk[p_] /; cc < 1000", "kk["+g.atom()+"]"
				}
				reset := "cc = 0; sv = {}; u1 = 1; u2 = x; u3 = {2, y}; u4 = 1/2"
				b.Casef("%s; %s := %s; %s", reset, form, body, call)
				s.Run("ClearAll[kk, cc, sv, u1, u2, u3, u4]")
				s.Run(reset)
				s.Runf("%s := %s", form, body)
				isKK := func(k string) bool { return k == "Global`kk" }
				before := defsOf(s.es, isKK)
				obs := func() string {
					s.Run(reset)
					r := s.Run(call)
					if s.es.HasThrown() {
						s.es.Throw(nil)
					}
					return noUniq(r.Key() + " state " + s.Run("{cc, sv, u1, u2, u3, u4}").Key())
				}
				r1 := obs()
				r2 := obs()
				if d := diffDefs(before, defsOf(s.es, isKK)); d != "" {
					b.Fail("delayed-definition", "%s", d)
					continue
				}
				if r1 != r2 {
					b.Fail("delayed-repeat", "first %s\nthen %s", r1, r2)
					continue
				}
				// A delayed rule applied again and again.
				s.Run(reset)
				s.Runf("dr = zz :> %s", body)
				rb := s.Run("Hold[Evaluate[dr]]").Key()
				use := pick(b.R, "zz /. dr", "First[{zz} /. dr]", "Replace[zz, dr]")
				run := func() string {
					s.Run(reset)
					r := s.Run(use)
					return noUniq(r.Key() + s.Run("{cc, sv, u1, u2, u3, u4}").Key())
				}
				d1, d2 := run(), run()
				if d1 != d2 {
					b.Fail("rule-repeat", "zz /. (zz :> %s)\nfirst %s\nthen %s", body, d1, d2)
				}
				_ = rb
				b.Seen(form + body)
			}
		})
	})
	props["P02"].HangUndecided = true
}
