package main

import (
	"math"
	"math/big"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
)

func init() {
	pool := strings.Split(`a|x|1|0|-3|5|1/2|2.5|I|"abc"|""|{}|{1,2,3}|{a,{b}}|{{1,2},{3,4}}|f[a]|f[]|x^2+1|x->1|{x->1}|x_|_|_Integer|x__|{i,3}|{i,1,0}|{1,-1}|All|Infinity|#+1&|True|Null|Sequence[]|Hold[x]|x==1|Span[1,2]|f|Plus|(x_:>x)|{{}}|Pattern[x]|Blank[]|Rule[]|{1,a,"s"}|-1|{-1}|{0}|13|List|Condition[x]|g[x_,y_]|x>1|{x,2}|"\\n"|{}[]|-x|2 x|Sqrt[x]|Sin[x]|1.|-2.5|0.|{i,a}|{a,b,c}|{{a,b},{c,d}}|Function[]|Optional[]|Slot[1]|{{1,2},{3}}|Complex[1,2.5]|f[g[x],1]|a&&b|x<2|Not[a]`, "|")
	apool := strings.Split(`x|y|1|-3|1/2|2.5|I|"abc"|True|Null|Sequence[]|x_|_|Infinity`, "|")
	apool2 := append([]string{"{}", "{1,2,3}", "{x,2}", "{i,3}", "x>5", "False", "1", "{x=2}", "Hold[x]", "HoldFirst", "Listable", "{}"}, apool...)
	register("P18", "every builtin function of the definition table is applied to 0-4 random arguments of mixed type and shape; distinct = distinct calls evaluated and printed without a crash; a call that does not end is counted as undecided", func(c *Ctx) {
		names := builtinNames(newSess())
		for _, n := range names {
			n := n
			c.Batch(n, c.N(4, 12), func(b *B) {
				s := newSess()
				num := 36
				if assignOps[n] {
					num = 5
				}
				for i := 0; i < num; i++ {
					k := b.R.Intn(5)
					if k == 4 {
						k = 2
					}
					as := []string{}
					for j := 0; j < k; j++ {
						p := pool
						if assignOps[n] {
							p = apool
							if j > 0 {
								p = apool2
							}
						}
						as = append(as, p[b.R.Intn(len(p))])
					}
					src := n + "[" + strings.Join(as, ", ") + "]"
					if n == "While" || n == "For" {
						src = strings.Replace(src, "True", "False", -1)
					}
					if assignOps[n] {
						s = newSess()
						s.Run("x=3;y={1,2}")
					}
					b.Case(src)
					p := guard(func() {
						r := expreduce.EvalInterp(src, s.es)
						for _, form := range []string{"InputForm", "OutputForm", "FullForm"} {
							s.Form(r, form)
						}
						b.Seen(src)
					})
					if p != nil {
						b.Fail("panic@"+strings.Split(p.(string), " at ")[1], "%v", p)
						s = newSess()
					}
					if s.es.HasThrown() {
						s.es.Throw(nil)
					}
					if i%60 == 59 {
						s = newSess()
					}
				}
				if b.Idx == 0 {
					b.Count("builtins", 1)
				}
			})
			if assignOps[n] {
				continue
			}
			c.Batch(n+" of calls", c.N(1, 24), func(b *B) {
				s := newSess()
				for i := 0; i < 12; i++ {
					arg := func() string { return pick(b.R, pool...) }
					if b.R.Intn(2) == 0 {
						simple := arg
						arg = func() string {
							g := names[b.R.Intn(len(names))]
							if assignOps[g] || b.R.Intn(3) == 0 {
								return simple()
							}
							as := make([]string, 1+b.R.Intn(3))
							for j := range as {
								as[j] = simple()
							}
							return g + "[" + strings.Join(as, ", ") + "]"
						}
					}
					as := make([]string, 1+b.R.Intn(3))
					for j := range as {
						as[j] = arg()
					}
					src := n + "[" + strings.Join(as, ", ") + "]"
					b.Case(src)
					p := guard(func() {
						r := expreduce.EvalInterp(src, s.es)
						for _, form := range []string{"InputForm", "OutputForm", "FullForm", "TeXForm"} {
							s.Form(r, form)
						}
						b.Seen(src)
						b.Count("calls of calls", 1)
					})
					if p != nil {
						b.Fail("panic@"+strings.Split(p.(string), " at ")[1], "%v", p)
						s = newSess()
					}
					if s.es.HasThrown() {
						s.es.Throw(nil)
					}
				}
			})
			c.Batch(n+" of infinite reals", c.N(1, 12), func(b *B) {
				s := newSess()
				overflown(s)
				for i := 0; i < 12; i++ {
					as := make([]string, 1+b.R.Intn(3))
					for j := range as {
						as[j] = pick(b.R, pool...)
					}
					as[b.R.Intn(len(as))] = pick(b.R, "pinf", "minf", "{pinf, 1}", "{pinf, minf}", "1. + pinf*I", "pinf*x", "{x, 0, pinf}", "f[pinf]", "Cot[Cot[0.]]")
					if b.R.Intn(3) == 0 {
						as[b.R.Intn(len(as))] = "pinf"
					}
					src := n + "[" + strings.Join(as, ", ") + "]"
					b.Case("pinf=1.5; Do[pinf=pinf*pinf,{40}]; minf=-pinf; " + src)
					p := guard(func() {
						r := expreduce.EvalInterp(src, s.es)
						for _, form := range []string{"InputForm", "OutputForm", "FullForm"} {
							s.Form(r, form)
						}
						b.Seen(src)
						b.Count("calls with infinite reals", 1)
					})
					if p != nil {
						b.Fail("panic@"+strings.Split(p.(string), " at ")[1], "%v", p)
						s = newSess()
						overflown(s)
					}
					if s.es.HasThrown() {
						s.es.Throw(nil)
					}
				}
			})
		}
	})
	props["P18"].HangUndecided = true
}

// overflown sets pinf and minf to the reals that arise by overflow.
func overflown(s *Sess) {
	inf := func(sign int) *T { return fromEx(atoms.NewReal(big.NewFloat(math.Inf(sign)))) }
	for name, v := range map[string]*T{"pinf": inf(1), "minf": inf(-1)} {
		s.Run("Clear[" + name + "]")
		s.EvalT(sfn("Set", sym(name), v))
	}
}
