package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// nameSpace is the reference for how names are read and printed. It is also
// what the parser and the printer see when they are used without a session.
type nameSpace struct {
	seen map[string]bool
	ctx  string
	path []string
}

func newNameSpace(ctx string, path ...string) *nameSpace {
	return &nameSpace{map[string]bool{}, ctx, path}
}

func (n *nameSpace) IsDef(s string) bool { return n.seen[s] }
func (n *nameSpace) MarkSeen(s string)   { n.seen[s] = true }
func (n *nameSpace) GetStringDef(name, def string) string {
	if name == "System`$Context" {
		return n.ctx
	}
	return def
}
func (n *nameSpace) GetListDef(name string) expreduceapi.ExpressionInterface {
	l := []expreduceapi.Ex{atoms.NewSymbol("System`List")}
	if name == "System`$ContextPath" {
		for _, p := range n.path {
			l = append(l, atoms.NewString(p))
		}
	}
	return atoms.NewExpression(l)
}
func (n *nameSpace) GetStringFn(string) (expreduceapi.ToStringFnType, bool) { return nil, false }
func (n *nameSpace) GetDefined(s string) (expreduceapi.Def, bool) {
	return expreduceapi.Def{}, n.seen[s]
}

// resolve is the symbol that a name stands for.
func (n *nameSpace) resolve(name string) string {
	if name[0] == '`' {
		return n.ctx + name[1:]
	}
	if strings.Contains(name, "`") {
		return name
	}
	for _, p := range n.path {
		if n.seen[p+name] {
			return p + name
		}
	}
	return n.ctx + name
}

// read resolves the name and takes note of the symbol.
func (n *nameSpace) read(name string) string {
	full := n.resolve(name)
	n.seen[full] = true
	return full
}

// shown is how a symbol that was seen is printed.
func (n *nameSpace) shown(full string) string {
	short := shortName(full)
	ctx := full[:len(full)-len(short)]
	for _, p := range append(append([]string{}, n.path...), n.ctx) {
		if p == ctx && n.resolve(short) == full {
			return short
		}
	}
	return full
}

func shortName(full string) string { return full[strings.LastIndex(full, "`")+1:] }

func (n *nameSpace) String() string {
	l := []string{}
	for s := range n.seen {
		l = append(l, s)
	}
	sort.Strings(l)
	return fmt.Sprintf("context %s, path %v, symbols %v", n.ctx, n.path, l)
}

var nameCtxs = []string{"Global`", "A`", "B`", "A`P`", "B`A`", "AB`", "C`P`"}

func anyName(r *rand.Rand) string {
	s := pick(r, "vv1", "vv2", "vv3", "vv12", "$vv", "vV1")
	switch r.Intn(8) {
	case 0:
		return "`" + s
	case 1, 2, 3:
		return nameCtxs[r.Intn(len(nameCtxs))] + s
	}
	return s
}

func (n *nameSpace) randomPath(r *rand.Rand) {
	n.path = []string{}
	for _, i := range r.Perm(len(nameCtxs))[:r.Intn(5)] {
		n.path = append(n.path, nameCtxs[i])
	}
}

var holeRE = regexp.MustCompile("qq([0-9]+)")

// nameText is an expression with holes qq0, qq1 ... for names; those which must
// be short are noted.
func nameText(r *rand.Rand, d int, holes *[]bool) string {
	hole := func(short bool) string {
		if len(*holes) > 0 && r.Intn(3) == 0 {
			k := r.Intn(len(*holes))
			if !short || (*holes)[k] {
				return fmt.Sprintf("qq%d", k)
			}
		}
		*holes = append(*holes, short)
		return fmt.Sprintf("qq%d", len(*holes)-1)
	}
	if d <= 0 || r.Intn(5) == 0 {
		switch r.Intn(8) {
		case 0:
			return fmt.Sprint(r.Intn(9))
		case 1:
			return `"vv1 A` + "`" + `vv2"`
		case 2:
			return hole(true) + "_"
		case 3:
			return hole(true) + "_" + hole(true)
		case 4:
			return "_" + hole(true)
		}
		return hole(false)
	}
	sub := func() string { return nameText(r, d-1, holes) }
	switch r.Intn(9) {
	case 0:
		return "{" + sub() + ", " + sub() + "}"
	case 1:
		return "(" + sub() + " + " + sub() + ")"
	case 2:
		return "(" + sub() + " * " + sub() + ")"
	case 3:
		return "(" + sub() + " -> " + sub() + ")"
	case 4:
		return "(" + sub() + " == " + sub() + ")"
	case 5:
		return "(" + sub() + " /. " + sub() + ")"
	case 6:
		return "(" + hole(false) + " = " + sub() + ")"
	}
	h := hole(false)
	a := make([]string, r.Intn(3))
	for i := range a {
		a[i] = sub()
	}
	return h + "[" + strings.Join(a, ", ") + "]"
}

// inOrder calls f for each symbol, heads first.
func (t *T) inOrder(f func(*T)) {
	if t.K == kSym {
		f(t)
	}
	if t.K == kExpr {
		for _, a := range t.A {
			a.inOrder(f)
		}
	}
}

func showParams(n *nameSpace, form string) expreduceapi.ToStringParams {
	return expreduceapi.ToStringParams{
		Form: form, Context: atoms.NewString(n.ctx), ContextPath: n.GetListDef("System`$ContextPath"),
		PreviousHead: "<TOPLEVEL>", Esi: n,
	}
}

func init() {
	register("P21", "random names read, printed and given values under random contexts, paths and nestings of packages; distinct = distinct texts with their contexts", func(c *Ctx) {
		// checkRead compares how a text is read to the reference.
		checkRead := func(b *B, n *nameSpace, read func(string) *T) {
			holes := []bool{}
			raw := nameText(b.R, 3, &holes)
			names := make([]string, len(holes))
			for i, short := range holes {
				names[i] = anyName(b.R)
				if short {
					names[i] = pick(b.R, "vv1", "vv2", "vv3", "$vv")
				}
			}
			text := holeRE.ReplaceAllStringFunc(raw, func(s string) string {
				k, _ := strconv.Atoi(s[2:])
				return names[k]
			})
			neutral := newNameSpace("N`")
			want := fromEx(parser.Interp(raw, neutral))
			state := n.String()
			b.Case(text + "; " + state)
			b.Seen(text + state)
			want.inOrder(func(t *T) {
				if strings.HasPrefix(t.S, "N`qq") {
					k, _ := strconv.Atoi(t.S[4:])
					t.S = n.read(names[k])
				}
			})
			if got := read(text); !same(got, want) {
				b.Fail("read", "%s reads as %s; expected %s; before: %s", text, clip(got.Key(), 300), clip(want.Key(), 300), state)
			}
			b.Count("texts", 1)
		}
		c.Batch("direct", c.N(200, 20), func(b *B) {
			n := newNameSpace(pick(b.R, nameCtxs...))
			n.randomPath(b.R)
			for i := 0; i < 60; i++ {
				if b.R.Intn(6) == 0 {
					n.ctx = pick(b.R, nameCtxs...)
				}
				if b.R.Intn(6) == 0 {
					n.randomPath(b.R)
				}
				state := newNameSpace(n.ctx, n.path...)
				for full := range n.seen {
					state.seen[full] = true
				}
				checkRead(b, n, func(s string) *T { return fromEx(parser.Interp(s, state)) })
				for full := range state.seen {
					if !n.seen[full] && !strings.HasPrefix(full, "System`") {
						b.Fail("seen", "%s was seen; %s", full, state)
					}
				}
				// Printing
				for full := range n.seen {
					for _, form := range []string{"InputForm", "OutputForm", "FullForm"} {
						got := atoms.NewSymbol(full).StringForm(showParams(n, form))
						if want := n.shown(full); got != want {
							b.Fail("print", "%s prints as %s in %s; expected %s; %s", full, got, form, want, n)
						}
						if back := n.resolve(got); back != full {
							b.Fail("print-read", "%s prints as %s, which is %s; %s", full, got, back, n)
						}
						b.Count("printed", 1)
					}
				}
			}
		})
		c.Batch("deep", 1, func(b *B) {
			s := newSess()
			for _, name := range []string{"A`B`C`vv1"} {
				b.Known("deep-context:"+name, func() (bool, string) {
					got := s.Parse(name)
					return same(got, &T{K: kSym, S: name}), name + " reads as " + got.Key()
				})
			}
		})
		c.Batch("session", c.N(120, 20), func(b *B) {
			// The names seen stay so in a session that is used again.
			s, n := ctxSess, ctxSeen
			ctxSess = nil
			if s == nil || b.Idx%8 == 0 {
				s, n = newSess(), newNameSpace("Global`", "System`", "Global`")
			}
			type saved struct {
				ctx  string
				path []string
				pkg  bool
			}
			stack := []saved{}
			vals := map[string]*T{}
			funs := map[string]func(*T) *T{}
			log := []string{}
			set := func(name string, v *T) {
				if got := s.EvalT(sfn("Set", sys(name), v)); !same(got, v) {
					b.Fail("set-context", "%s = %s gives %s", name, v.Key(), got.Key())
				}
			}
			strs := func(l []string) *T {
				r := []*T{}
				for _, x := range l {
					r = append(r, str(x))
				}
				return list(r...)
			}
			symF := func(full string) *T { return &T{K: kSym, S: full} }
			val := func(full string) *T {
				if v := vals[full]; v != nil {
					return v
				}
				return symF(full)
			}
			ev := func(t *T) *T { return s.EvalT(t) }
			for i := 0; i < 60; i++ {
				op := b.R.Intn(16)
				step := ""
				do := func(f string, a ...interface{}) {
					step = fmt.Sprintf(f, a...)
					log = append(log, step)
					b.Case(strings.Join(log, "; "))
				}
				switch {
				case op == 0 && len(stack) < 5:
					x := pick(b.R, nameCtxs[:]...)
					do("BeginPackage[%q]", x)
					stack = append(stack, saved{n.ctx, n.path, true})
					n.ctx, n.path = x, []string{x, "System`"}
					ev(sfn("BeginPackage", str(x)))
				case op == 1 && len(stack) < 5:
					x := pick(b.R, append(nameCtxs, "`P`", "`R`")...)
					if x[0] == '`' && strings.Count(n.ctx, "`") > 1 {
						continue // such names cannot be read
					}
					do("Begin[%q]", x)
					stack = append(stack, saved{n.ctx, n.path, false})
					if x[0] == '`' {
						x = n.ctx + x[1:]
					}
					arg := x
					if strings.HasPrefix(x, n.ctx) && x != n.ctx && b.R.Intn(2) == 0 {
						arg = "`" + x[len(n.ctx):]
					}
					n.ctx = x
					if got := ev(sfn("Begin", str(arg))); !same(got, str(x)) {
						b.Fail("begin", "Begin[%q] gives %s; expected %q", arg, got.Key(), x)
					}
				case op <= 3 && len(stack) > 0:
					top := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if top.pkg {
						do("EndPackage[]")
						pkg := n.path[0]
						if len(n.path) == 2 && n.path[1] == "System`" {
							n.path = append([]string{pkg}, top.path...)
						} else {
							// The path was changed.
							n.path = nil
						}
						n.ctx = top.ctx
						if got := ev(sfn("EndPackage")); !same(got, sys("Null")) {
							b.Fail("endpackage", "EndPackage[] gives %s", got.Key())
						}
					} else {
						do("End[]")
						was := n.ctx
						n.ctx = top.ctx
						if got := ev(sfn("End")); !same(got, str(was)) {
							b.Fail("end", "End[] gives %s; expected %q", got.Key(), was)
						}
					}
				case op == 2 && len(stack) == 0:
					x := pick(b.R, "End", "EndPackage")
					do(x + "[]")
					ev(sfn(x))
				case op == 3:
					n.ctx = pick(b.R, nameCtxs...)
					do("$Context = %q", n.ctx)
					set("$Context", str(n.ctx))
				case op == 4:
					// Only outside packages, whose end restores the path.
					inPkg := false
					for _, x := range stack {
						inPkg = inPkg || x.pkg
					}
					if inPkg {
						continue
					}
					n.randomPath(b.R)
					if b.R.Intn(3) > 0 {
						n.path = append(n.path, "System`")
					}
					do("$ContextPath = %q", n.path)
					set("$ContextPath", strs(n.path))
				case op == 5, op == 6:
					name := anyName(b.R)
					do("%s = %d", name, i)
					full := n.read(name)
					vals[full] = in(int64(i))
					delete(funs, full)
					ev(sfn("ClearAll", symF(full)))
					e := parser.Interp(name, s.es)
					if got := fromEx(s.es.Eval(sfn("Set", fromEx(e), in(int64(i))).Ex())); !same(got, in(int64(i))) {
						b.Fail("set", "%s = %d gives %s", name, i, got.Key())
					}
				case op == 7:
					// A function with a helper
					h, x, y := anyName(b.R), anyName(b.R), anyName(b.R)
					do("%s[pp_] := {pp, %s, %s}", h, x, y)
					fh := n.resolve(h)
					if shortName(fh) != shortName(h) || n.seen["System`pp"] {
						continue
					}
					text := step
					if !inPath(n, "System`") {
						break
					}
					ev(sfn("ClearAll", symF(fh)))
					delete(vals, fh)
					fh = n.read(h)
					n.read("pp")
					fx, fy := n.read(x), n.read(y)
					funs[fh] = func(a *T) *T { return list(a, val(fx), val(fy)) }
					if fx == fh || fy == fh {
						delete(funs, fh)
						ev(sfn("ClearAll", symF(fh)))
						parser.Interp(text, s.es)
						break
					}
					if got := s.Run(text); !same(got, sys("Null")) {
						b.Fail("define", "%s gives %s", text, got.Key())
					}
				case op == 8:
					l := []string{}
					for full := range n.seen {
						if strings.Contains(full, "vv") {
							l = append(l, full)
						}
					}
					if len(l) == 0 {
						continue
					}
					sort.Strings(l)
					full := pick(b.R, l...)
					do("ClearAll[%s]", full)
					delete(vals, full)
					delete(funs, full)
					ev(sfn("ClearAll", symF(full)))
				case op == 9:
					want := map[string]bool{}
					x := pick(b.R, nameCtxs...)
					for full := range n.seen {
						if strings.HasPrefix(full, x) {
							want[full] = true
						}
					}
					pat := x + pick(b.R, "*", "vv1*", "$*", "*2", "v*1")
					do("Names[%q]", pat)
					re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(pat), `\*`, ".*") + "$")
					got := ev(sfn("Names", str(pat)))
					for full := range want {
						has := false
						for _, g := range got.args() {
							has = has || g.K == kStr && g.S == full
						}
						if m := re.MatchString(full); m != has {
							b.Fail("names", "Names[%q] gives %s, for %s after %s", pat, clip(got.Key(), 400), full, strings.Join(log, "; "))
						}
					}
				default:
					log = append(log, "text")
					checkRead(b, n, s.Parse)
				}
				if !same(ev(sys("$Context")), str(n.ctx)) {
					b.Fail("context", "$Context is %s; expected %q after %s", ev(sys("$Context")).Key(), n.ctx, strings.Join(log, "; "))
				}
				if n.path == nil {
					n.path = []string{"System`", "Global`"}
					set("$ContextPath", strs(n.path))
				}
				if p := ev(sys("$ContextPath")); !same(distinctT(p), distinctT(strs(n.path))) {
					b.Fail("path", "$ContextPath is %s; expected %q after %s", p.Key(), n.path, strings.Join(log, "; "))
				}
				for full := range n.seen {
					if got, want := ev(symF(full)), val(full); !same(got, want) {
						b.Fail("value", "%s is %s; expected %s after %s", full, got.Key(), want.Key(), strings.Join(log, "; "))
					}
					if f := funs[full]; f != nil {
						if got, want := ev(ex(symF(full), in(3))), f(in(3)); !same(got, want) {
							b.Fail("function", "%s[3] is %s; expected %s after %s", full, got.Key(), want.Key(), strings.Join(log, "; "))
						}
					}
					shown := n.shown(full)
					if got := s.Form(symF(full).Ex(), "InputForm"); got != shown {
						b.Fail("session-print", "%s prints as %s; expected %s; %s", full, got, shown, n)
					}
					b.Count("symbols", 1)
				}
			}
			// What an expression gives does not depend on the context.
			ref := keptSess("p21ref", "")
			for i := 0; i < 12; i++ {
				text := ctxExprs[b.R.Intn(len(ctxExprs))]
				b.Case(text + " in " + n.String())
				e := ref.Parse(text)
				if got, want := ev(e), ref.EvalT(e); !same(got, want) {
					b.Fail("depends", "%s gives %s; at the start of a session %s; %s", text, clip(got.Key(), 300), clip(want.Key(), 300), n)
				}
				b.Count("evaluated", 1)
			}
			for len(stack) > 0 {
				if stack[len(stack)-1].pkg {
					ev(sfn("EndPackage"))
				} else {
					ev(sfn("End"))
				}
				stack = stack[:len(stack)-1]
			}
			set("$Context", str("Global`"))
			set("$ContextPath", list(str("System`"), str("Global`")))
			for full := range n.seen {
				expreduce.EvalInterp("ClearAll["+full+"]", s.es)
			}
			n.ctx, n.path = "Global`", []string{"System`", "Global`"}
			ctxSess, ctxSeen = s, n
		})
	})
}

var (
	ctxSess *Sess
	ctxSeen *nameSpace
)

var ctxExprs = []string{
	"D[Sin[x^2]*Exp[x], x]", "Integrate[x^2 + 3, x]", "Expand[(a + b + 1)^4]", "Factor[x^2 - 1]", "Solve[x^2 == 4, x]", "Solve[2*x + 1 == 5, x]",
	"Table[i^2, {i, 5}]", "Sum[i, {i, 10}]", "Sum[k, {k, 1, n}]", "Product[i, {i, 4}]", "Map[f, {a, b}]", "Select[{1, 2, 3, 4}, EvenQ]", "Fold[g, x, {a, b}]",
	"FoldList[g, x, {a, b}]", "Nest[f, x, 3]", "NestList[f, x, 3]", "Inverse[{{1, 2}, {3, 4}}]", "Det[{{a, b}, {c, d}}]",
	"Transpose[{{1, 2}, {3, 4}}]", "Dot[{a, b}, {c, d}]", "PolynomialGCD[x^2 - 1, x - 1]", "Coefficient[3*x^2 + x, x, 2]", "Exponent[3*x^2 + x, x]",
	"CoefficientList[1 + 2*x + x^2, x]", "PolynomialQuotient[x^3 - 1, x - 1, x]", "Together[1/x + 1/y]", "Numerator[(a + b)/c]", "Denominator[2/x]",
	"Simplify[Sin[x]^2 + Cos[x]^2]", "Sin[Pi/3]", "Cos[2*Pi]", "ArcTan[1]", "Sqrt[12]", "Log[E^2]", "Exp[I*Pi]", "Abs[-3 + 4*I]", "Factorial[5]",
	"FactorInteger[360]", "GCD[12, 18]", "PrimeQ[97]", "Mean[{1, 2, 3}]", "Total[{a, b, c}]", "Variance[{1, 2, 3}]", "StringJoin[\"a\", \"b\"]", "StringLength[\"abc\"]",
	"ToString[1 + 2]", "Sort[{c, a, b}]", "Union[{b, a, b}]", "Reverse[{1, 2, 3}]", "Range[2, 10, 3]", "Flatten[{1, {2, {3}}}]", "Count[{a, b, a}, a]", "MemberQ[{a, b}, a]",
	"Cases[{1, a, 2}, _Integer]", "DeleteDuplicates[{a, b, a}]", "ReplaceAll[f[x], x -> 3]", "ReplaceRepeated[f[f[x]], f[y_] -> y]", "MatchQ[f[3], f[_Integer]]",
	"Module[{t = 3}, t + 1]", "Block[{t = 3}, t^2]", "With[{t = 3}, t*2]", "If[1 < 2, a, b]", "Which[False, 1, True, 2]", "And[True, a, b]", "Or[False, a]",
	"Catch[Throw[3]]", "Reap[Sow[1]; 2]", "Apply[f, {a, b}]", "Thread[f[{a, b}, {c, d}]]", "Array[f, 3]", "IdentityMatrix[3]", "Median[{3, 1, 2}]",
	"Permutations[{a, b, c}]", "Tuples[{a, b}, 2]", "N[Pi]", "Rest[{a, b}]", "Accumulate[{1, 2, 3}]", "Limit[Sin[x]/x, x -> 0]", "Series[Exp[x], {x, 0, 3}]",
	"TrigExpand[Sin[a + b]]", "ExpandAll[(a + b)*(c + d)]", "Collect[a*x + b*x, x]", "Apart[1/(x^2 - 1)]", "Cancel[(x^2 - 1)/(x - 1)]", "Eliminate[{x == y}, x]",
	"ReplacePart[{a, b}, 1 -> c]", "Distribute[f[a + b]]", "Through[(f + g)[x]]", "Total[{1, 2}]", "Norm[{3, 4}]", "Cross[{1, 2, 3}, {4, 5, 6}]", "Boole[True]", "Sign[-3]",
	"Composition[f, g][x]", "KroneckerDelta[1, 1]", "EulerPhi[10]", "Unique[]; 3", "Do[t, {2}]", "While[False]", "Hold[1 + 1]", "Attributes[Plus]", "Round[2.5]",
}

func inPath(n *nameSpace, ctx string) bool {
	for _, p := range n.path {
		if p == ctx {
			return true
		}
	}
	return false
}

// distinctT drops later occurrences of what a list has already.
func distinctT(l *T) *T {
	seen := map[string]bool{}
	r := []*T{}
	for _, x := range l.args() {
		if !seen[x.Key()] {
			seen[x.Key()] = true
			r = append(r, x)
		}
	}
	return list(r...)
}
