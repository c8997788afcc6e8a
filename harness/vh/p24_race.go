package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/graphics"
	"github.com/corywalker/expreduce/expreduce/logging"
	"github.com/corywalker/expreduce/expreduce/matcher"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/expreduce/parser/parens"
	"github.com/corywalker/expreduce/expreduce/timecounter"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// together runs n functions at the same time and hands back what panicked.
func together(n int, f func(i int)) []string {
	var wg, ready sync.WaitGroup
	out := make([]string, n)
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			if p := guard(func() { f(i) }); p != nil {
				out[i] = fmt.Sprint(p)
			}
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	return out
}

func failPanics(b *B, ps []string) {
	for _, p := range ps {
		if p != "" {
			b.Fail("panic", "%s", p)
		}
	}
}

// pureProg is the setting of a parallel evaluation: values and functions, all
// of whose bodies assign nothing.
func pureProg(r *rand.Rand) (*progGen, []string) {
	g := newProg(r)
	g.pure = true
	out := []string{"ClearAll[u1, u2, u3, u4, k1, k2, k3, sv, ii, jj]; u1 = 1; u2 = x; u3 = {2, y, f[3, x]}; u4 = 1/2"}
	for n := 1; n <= 3; n++ {
		pat := pick(r, "p_", "p_Integer", "p_ /; FreeQ[p, x]", "{p_, q___}", "f[p_]", "p_Symbol")
		body := g.with("p", func() string { return g.expr(2) })
		out = append(out, fmt.Sprintf("k%d[%s] := %s", n, pat, body))
		g.fns = append(g.fns, fmt.Sprintf("k%d", n))
	}
	return g, append(out, "kr[n_Integer] := If[n < 2, {n, u3}, {kr[n - 1], kr[n - 2]}]")
}

var sharedSessV *Sess

func sharedSess() *Sess {
	if sharedSessV == nil {
		sharedSessV = newSess()
	}
	return sharedSessV
}

// putSym puts v for every use of a global symbol.
func putSym(t *T, name string, v *T) *T {
	if t.K == kSym && t.S == "Global`"+name {
		return v
	}
	if t.K != kExpr {
		return t
	}
	out := &T{K: kExpr}
	for _, a := range t.A {
		out.A = append(out.A, putSym(a, name, v))
	}
	return out
}

type readOp struct {
	name string
	f    func(e, o expreduceapi.Ex) string
}

func init() {
	register("P24", "goroutines with their own sessions running random programs; goroutines reading, comparing, printing, copying, matching and evaluating shared random terms; ParallelTable over random bodies and iterators and over definitions; streams, counters, logging, parentheses and graphics used side by side; interrupts. All under the race detector, all results compared with the same work done alone; distinct = distinct programs, terms or bodies", func(c *Ctx) {
		c.Batch("sessions", c.N(8, 12), func(b *B) {
			const n = 3
			var progs, want, got [n][]string
			for i := range progs {
				g := newProg(b.R)
				progs[i] = g.prog(12, 3)
			}
			b.Case(fmt.Sprint(progs))
			run := func(lines []string) (out []string) {
				s := newSess()
				for _, l := range lines {
					if p := guard(func() { out = append(out, s.Run(l).Key()) }); p != nil {
						out = append(out, fmt.Sprint(p))
					}
				}
				return
			}
			swapStd(b, func(fo, fe *os.File) {
				failPanics(b, together(n, func(i int) { got[i] = run(progs[i]) }))
				for i := range progs {
					want[i] = run(progs[i])
				}
			})
			b.Seen(fmt.Sprint(progs))
			b.Count("lines", int64(n*14))
			for i := range progs {
				for j := range want[i] {
					if j >= len(got[i]) || got[i][j] != want[i][j] {
						b.Fail("session", "line %q of a session beside others gave %s, alone %s", progs[i][j], clip(strings.Join(got[i][j:j+1], ""), 400), clip(want[i][j], 400))
						break
					}
				}
			}
		})

		// Shared terms: everything that only reads.
		c.Batch("shared", c.N(160, 20), func(b *B) {
			s := sharedSess()
			t := genTerm(b.R, 4)
			o := mutate(b.R, t)
			if b.R.Intn(3) == 0 {
				o = genTerm(b.R, 3)
			}
			pt := newPatGen(b.R).single(t, 3, false)
			b.Casef("%s | %s | %s", t.Src(), o.Src(), pt.Src())
			b.Seen(t.Key() + o.Key())
			pat := pt.Ex()
			forms := []string{"InputForm", "FullForm", "OutputForm", "TeXForm"}
			ops := []readOp{
				{"Hash", func(e, o expreduceapi.Ex) string { return fmt.Sprint(e.Hash()) }},
				{"IsEqual", func(e, o expreduceapi.Ex) string { return e.IsEqual(o) + o.IsEqual(e) }},
				{"IsSameQ", func(e, o expreduceapi.Ex) string { return fmt.Sprint(atoms.IsSameQ(e, o)) }},
				{"ExOrder", func(e, o expreduceapi.Ex) string { return fmt.Sprint(atoms.ExOrder(e, o), atoms.ExOrder(o, e)) }},
				{"DeepCopy", func(e, o expreduceapi.Ex) string { c := e.DeepCopy(); return fmt.Sprint(c.Hash()) + fromEx(c).Key() }},
				{"Copy", func(e, o expreduceapi.Ex) string { c := e.Copy(); return fmt.Sprint(c.Hash()) + fromEx(c).Key() }},
				{"Eval", func(e, o expreduceapi.Ex) string { return fromEx(s.es.Eval(e)).Key() }},
				{"EvalHead", func(e, o expreduceapi.Ex) string { return fromEx(s.es.Eval(atoms.E(atoms.S("List"), e, o, e))).Key() }},
				{"Match", func(e, o expreduceapi.Ex) string {
					ok, pd := matcher.IsMatchQ(e, pat, matcher.EmptyPD(), s.es)
					if !ok {
						return "no"
					}
					return fromEx(pd.Expression()).Key()
				}},
				{"ReplacePD", func(e, o expreduceapi.Ex) string {
					pd := matcher.EmptyPD()
					pd.Define("Global`a", o)
					return fromEx(matcher.ReplacePD(e, s.es, pd)).Key()
				}},
				{"Form", func(e, o expreduceapi.Ex) string {
					out := ""
					for _, f := range forms {
						out += s.Form(e, f) + "|"
					}
					return out
				}},
				{"NeedsEval", func(e, o expreduceapi.Ex) string { e.NeedsEval(); return "" }},
			}
			// Alone, on terms of their own.
			want := make([]string, len(ops))
			for i, op := range ops {
				e, x := t.Ex(), o.Ex()
				if p := guard(func() { want[i] = op.f(e, x) }); p != nil {
					want[i] = "panic"
				}
			}
			e, x := t.Ex(), o.Ex()
			pat = pat.DeepCopy()
			const n = 4
			var seqs [n][]int
			var got [n][]string
			for g := range seqs {
				for k := 0; k < 12; k++ {
					seqs[g] = append(seqs[g], b.R.Intn(len(ops)))
				}
			}
			failPanics(b, together(n, func(g int) {
				for _, k := range seqs[g] {
					res := ""
					if p := guard(func() { res = ops[k].f(e, x) }); p != nil {
						res = "panic"
					}
					got[g] = append(got[g], res)
				}
			}))
			b.Count("shared reads", n*12)
			for g := range seqs {
				for i, k := range seqs[g] {
					if got[g][i] != want[k] {
						b.Fail("shared:"+ops[k].name, "%s of a shared term gave %s, alone %s", ops[k].name, clip(got[g][i], 400), clip(want[k], 400))
					}
				}
			}
			if fromEx(e).Key() != t.Key() {
				b.Fail("shared:changed", "the shared term is now %s", clip(fromEx(e).Key(), 400))
			}
		})

		c.Batch("ptable", c.N(160, 20), func(b *B) {
			s := sharedSess()
			g, setup := pureProg(b.R)
			g.local = []string{"ii"}
			two := b.R.Intn(4) == 0
			if two {
				g.local = append(g.local, "jj")
			}
			body := "{ii, " + g.expr(3) + "}"
			switch b.R.Intn(5) {
			case 0:
				body = "{" + g.expr(2) + ", kr[ii + 2], " + g.expr(2) + "}"
			case 1:
				body = "{u3, Module[{v = ii}, v + 1], Sort[{x, ii, u3, u4}]}"
			}
			var iters []string
			var vals [][]string
			iter := func(v string) {
				lo, n := b.R.Intn(5)-2, 2+b.R.Intn(5)
				var vs []string
				switch b.R.Intn(4) {
				case 0:
					for k := 1; k <= n; k++ {
						vs = append(vs, fmt.Sprint(k))
					}
					iters = append(iters, fmt.Sprintf("{%s, %d}", v, n))
				case 1:
					for k := lo; k <= lo+n; k++ {
						vs = append(vs, fmt.Sprint(k))
					}
					iters = append(iters, fmt.Sprintf("{%s, %d, %d}", v, lo, lo+n))
				case 2:
					for k := lo; k <= lo+2*n; k += 2 {
						vs = append(vs, fmt.Sprint(k))
					}
					iters = append(iters, fmt.Sprintf("{%s, %d, %d, 2}", v, lo, lo+2*n))
				default:
					for k := 0; k < n; k++ {
						vs = append(vs, pick(b.R, "x", "5", "f[3]", "\"t\"", "{1, y}", "2/3"))
					}
					iters = append(iters, fmt.Sprintf("{%s, {%s}}", v, strings.Join(vs, ", ")))
				}
				vals = append(vals, vs)
			}
			iter("ii")
			if two {
				iter("jj")
			} else {
				vals = append(vals, []string{""})
			}
			b.Case(strings.Join(setup, "; ") + " ;; ParallelTable[" + body + ", " + strings.Join(iters, ", ") + "]")
			b.Seen(body + strings.Join(iters, ""))
			var want, got *T
			swapStd(b, func(fo, fe *os.File) {
				for _, l := range setup {
					s.Run(l)
				}
				want = sfn("List")
				p := guard(func() {
					for _, v := range vals[0] {
						for _, w := range vals[1] {
							t := putSym(s.Parse(body), "ii", s.Run(v))
							if two {
								t = putSym(t, "jj", s.Run(w))
							}
							want.A = append(want.A, s.EvalT(t))
						}
					}
				})
				if p != nil {
					want = nil
					return
				}
				// As typed, and again over definitions whose terms have been used.
				for k := 0; k < 2; k++ {
					if k == 1 {
						s.Run(setup[0])
						for _, l := range setup[1:] {
							s.Run(l)
						}
					}
					got = s.Run("ParallelTable[" + body + ", " + strings.Join(iters, ", ") + "]")
					b.Count("parallel bodies", int64(len(want.A)))
					if !same(got, want) {
						b.Fail("ptable", "gave %s, one by one %s", clip(got.Src(), 500), clip(want.Src(), 500))
						return
					}
				}
			})
			if want == nil {
				b.Count("bodies that panic alone", 1)
			}
		})

		// Definitions made at the same time are all there afterwards.
		c.Batch("define", c.N(60, 20), func(b *B) {
			s := sharedSess()
			n := 6 + b.R.Intn(12)
			kinds := []string{
				"w[ii] = ii^2", "w[ii, p_] := {p, ii}", "w[{ii}] = h[ii]", "w[f[ii], p_Integer] := p + ii",
				"ToExpression[StringJoin[\"w\", ToString[ii]]]", "Attributes[w] = {HoldFirst}; w[ii] = ii^2",
			}
			k := b.R.Intn(len(kinds))
			b.Casef("ParallelTable[%s, {ii, %d}]", kinds[k], n)
			b.Seen(fmt.Sprint(k, n))
			swapStd(b, func(fo, fe *os.File) {
				s.Run("ClearAll[w]; w[zz] = 0; w[zz, p_, q_] := 1")
				s.Run(fmt.Sprintf("ParallelTable[%s, {ii, %d}]", kinds[k], n))
				for i := 1; i <= n; i++ {
					var got, want *T
					switch k {
					case 0, 5:
						got, want = s.Runf("w[%d]", i), in(int64(i*i))
					case 1:
						got, want = s.Runf("w[%d, q]", i), list(sym("q"), in(int64(i)))
					case 2:
						got, want = s.Runf("w[{%d}]", i), fn("h", in(int64(i)))
					case 3:
						got, want = s.Runf("w[f[%d], 100]", i), in(int64(i+100))
					default:
						got, want = s.Runf("w%d", i), sym(fmt.Sprintf("w%d", i))
					}
					b.Count("parallel definitions", 1)
					if !same(got, want) {
						b.Fail("define", "the definition of %d is lost: %s", i, got.Src())
						break
					}
				}
				if got := s.Run("{w[zz], w[zz, 1, 2]}"); !same(got, list(in(0), in(1))) {
					b.Fail("define:earlier", "earlier definitions are lost: %s", got.Src())
				}
				// Unique names are unique.
				u := s.Runf("Length[DeleteDuplicates[ParallelTable[%s, {ii, %d}]]]", pick(b.R, "Module[{v}, v]", "Unique[]", "Module[{v = ii}, {v, Hold[v]}]"), n)
				if !same(u, in(int64(n))) {
					b.Fail("unique", "%s distinct names for %d evaluations", u.Src(), n)
				}
			})
		})

		// The parts of the interpreter that are used directly.
		c.Batch("parts", c.N(12, 20), func(b *B) {
			s := sharedSess()
			b.Casef("round %d", b.Idx)
			b.Seen(fmt.Sprint(b.Idx))
			var tc timecounter.Group
			tc.Init()
			gr := s.es.Eval(expreduce.EvalInterp("Graphics[{Directive[RGBColor[1, 0, 0]], Line[{{0, 0}, {1, 1}, {2, 1/2}}], {Directive[Opacity[0.5]], Line[{{0, 1}, {2, 0}}]}}]", s.es))
			var keys, png, heads [4]string
			var logs [4]int
			paths := [4]string{}
			for i := range paths {
				paths[i] = c.Scratch + fmt.Sprintf("/st%d.txt", i)
				os.Remove(paths[i])
			}
			swapStd(b, func(fo, fe *os.File) {
				failPanics(b, together(4, func(i int) {
					for k := 0; k < 20; k++ {
						tc.AddTime(timecounter.CounterGroupEvalTime, fmt.Sprintf("key%d", k%3), 0.25)
						keys[i] = fromEx(parser.Interp(fmt.Sprintf("f[x_, {%d}] := g[x]^2 + \"s\" /. a -> b && !c", k), s.es)).Key()
						for _, h := range []string{"System`Plus", "System`Power", "", "System`Set"} {
							heads[i] += fmt.Sprint(parens.NeedsParens("System`Times", h), parens.NeedsParens(h, "System`Rule"))
						}
						ch, err := graphics.Render(gr)
						png[i] = fmt.Sprint(len(ch.Series), err)
						var cl logging.CASLogger
						cl.SetUpLogging()
						cl.DebugOff()
						cl.SetProfiling(k%2 == 0)
						if cl.IsProfiling() != (k%2 == 0) {
							logs[i]++
						}
					}
				}))
				str := tc.String()
				for k := 0; k < 3; k++ {
					n := 4 * 7
					if k == 2 {
						n = 4 * 6
					}
					if !strings.Contains(str, fmt.Sprintf("%v, %v, key%d", float64(n)/4, n, k)) {
						b.Fail("counter", "additions to a counter are lost: %s", str)
					}
				}
				if logs != [4]int{} {
					b.Fail("parts:logging", "profiling is not as set: %v", logs)
				}
				for i := 1; i < 4; i++ {
					if keys[i] != keys[0] || png[i] != png[0] || heads[i] != heads[0] {
						b.Fail("parts", "results differ: %s %s %s / %s %s %s", keys[i], png[i], heads[i], keys[0], png[0], heads[0])
					}
				}
			})
		})

		c.Batch("profiled", c.N(6, 10), func(b *B) {
			s := newSess()
			g, setup := pureProg(b.R)
			g.local = []string{"ii"}
			body := g.expr(3)
			b.Casef("%s ;; %s", strings.Join(setup, ";"), body)
			b.Seen(body)
			swapStd(b, func(fo, fe *os.File) {
				for _, l := range setup {
					s.Run(l)
				}
				want := s.Run("ParallelTable[" + body + ", {ii, 6}]")
				s.es.GetLogger().SetProfiling(true)
				got := s.Run("ParallelTable[" + body + ", {ii, 6}]")
				if !same(got, want) {
					b.Fail("profiled", "with profiling %s, without %s", clip(got.Src(), 400), clip(want.Src(), 400))
				}
			})
		})

		c.Batch("interrupt", c.N(4, 5), func(b *B) {
			s := newSess()
			src := pick(b.R, "kq[n_] := kq[Mod[n + 1, 7]]", "kq[n_] := kq[Mod[n + 1, 7]] /; n < 100", "kq[n_] := kp[n]; kp[n_Integer] := kq[Mod[n + 2, 5]]") + "; " +
				pick(b.R, "kq[1]", "{1, kq[2]}", "Module[{q = 1}, kq[q]]", "2 + kq[1]", "Map[kq, {1, 2}]", "If[kq[1] === 2, 3, 4]", "x /. x :> kq[3]")
			b.Case(src)
			b.Seen(src)
			swapStd(b, func(fo, fe *os.File) {
				done := make(chan string, 1)
				go func() {
					done <- fromEx(s.es.ProcessTopLevelResult(atoms.S("a"), expreduce.EvalInterp(src, s.es))).Src()
				}()
				time.Sleep(time.Duration(b.R.Intn(1500)) * time.Millisecond)
				syscall.Kill(os.Getpid(), syscall.SIGINT)
				select {
				case res := <-done:
					b.Count("interrupted", 1)
					if got := s.Run("kr[4] + 1 /. kr[x_] -> x"); !same(got, in(5)) {
						b.Fail("interrupt:after", "the evaluation after an interrupt gives %s (%s)", got.Src(), res)
					}
				case <-time.After(20 * time.Second):
					b.Fail("interrupt", "an interrupt does not end the evaluation")
				}
			})
		})
	})
}
