package main

import (
	"fmt"
	"strings"
)

// scopeRestores builds scoping constructs around bodies that write to the
// scoped names and leave in different ways, and checks that all definitions
// come out as they went in.
func scopeRestores(b *B) {
	s := keptSess("P12b", "")
	r := b.R
	names := []string{"sa", "sb", "sc"}
	s.Run("ClearAll[sa, sb, sc, fx]")
	prep := []string{}
	for _, n := range names {
		switch r.Intn(5) {
		case 0:
			prep = append(prep, fmt.Sprintf("%s = %d", n, 100+r.Intn(9)))
		case 1:
			prep = append(prep, fmt.Sprintf("%s[1] = 11; %s[p_Integer] := p + 40; %s[p_, r_] := {p, r}", n, n, n))
		case 2:
			prep = append(prep, fmt.Sprintf("%s[p_] := {p, sc}; SetAttributes[%s, {%s}]", n, n, pick(r, "Orderless", "HoldFirst", "Listable, Flat")))
		case 3:
			prep = append(prep, fmt.Sprintf("%s := {1, %s}", n, "sz"))
		}
	}
	// wr: the names that may be written to. loop: inside of a loop.
	var body func(d int, defs, vals []string, loop bool) string
	exit := func(loop bool) string {
		switch r.Intn(6) {
		case 0:
			return "Throw[77]"
		case 1:
			return "Return[78]"
		case 2:
			if loop {
				return "Break[]"
			}
		}
		return "79"
	}
	without := func(l []string, n string) []string {
		out := []string{}
		for _, x := range l {
			if x != n {
				out = append(out, x)
			}
		}
		return out
	}
	body = func(d int, defs, vals []string, loop bool) string {
		st := []string{}
		for k := r.Intn(3); k > 0; k-- {
			if len(defs) > 0 {
				n := pick(r, defs...)
				st = append(st, pick(r, n+"[1] = 5", n+"[2] = 6", n+"[p_] := p^2", n+"[p_Integer] := p^3", "Clear["+n+"]", n+"[sq] := sr"))
			}
			if len(vals) > 0 {
				n := pick(r, vals...)
				st = append(st, pick(r, n+" = 5", n+" = sz", n+" := {2, 3}", "Clear["+n+"]"))
			}
		}
		n := pick(r, names...)
		m := pick(r, without(names, n)...)
		inner := ""
		if d > 0 {
			un := func(l []string) []string { return without(l, n) }
			with := func(l []string, x ...string) []string { return append(append([]string{}, l...), x...) }
			switch r.Intn(9) {
			case 0:
				inner = "Block[{" + n + "}, " + body(d-1, with(un(defs), n), un(vals), loop) + "]"
			case 1:
				inner = "Block[{" + n + " = " + pick(r, "1", "sz", "{sz}", m) + "}, " + body(d-1, un(defs), with(un(vals), n), loop) + "]"
			case 2:
				inner = "Block[{" + n + ", " + m + " = 4}, " + body(d-1, with(without(un(defs), m), n), with(without(un(vals), m), m), loop) + "]"
			case 3:
				inner = "Module[{" + n + "}, " + body(d-1, with(un(defs), n), un(vals), loop) + "]"
			case 4:
				inner = "Module[{" + n + " = 3}, " + body(d-1, un(defs), with(un(vals), n), loop) + "]"
			case 5:
				inner = "With[{" + n + " = 3}, " + body(d-1, un(defs), un(vals), loop) + "]"
			case 6:
				inner = "Function[" + n + ", " + body(d-1, un(defs), un(vals), loop) + "][" + pick(r, "1", "sz") + "]"
			case 7:
				it := fmt.Sprintf("{%s, %d}", n, r.Intn(4))
				if r.Intn(3) == 0 {
					it = "{" + n + ", {4, sz, 6}}"
				}
				if r.Intn(4) == 0 {
					it += ", {" + m + ", 2}"
				}
				inner = pick(r, "Table", "Do", "Do") + "[" + body(d-1, without(un(defs), m), without(un(vals), m), true) + ", " + it + "]"
			case 8:
				inner = pick(r, "Sum", "Product") + "[" + body(d-1, un(defs), un(vals), false) + ", {" + n + ", 1, " + fmt.Sprint(r.Intn(4)) + "}]"
			}
			st = append(st, inner)
		}
		if r.Intn(2) == 0 {
			st = append(st, exit(loop))
		}
		if r.Intn(3) == 0 && d > 0 {
			st[len(st)-1] = "Catch[" + st[len(st)-1] + "]"
		}
		if len(st) == 0 {
			return pick(r, names...)
		}
		return "(" + strings.Join(st, "; ") + ")"
	}
	for _, p := range prep {
		s.Run(p)
	}
	sel := func(n string) bool { return strings.HasPrefix(n, "Global`s") && !strings.Contains(n, "$") }
	before := defsOf(s.es, sel)
	for k := 0; k < 4; k++ {
		src := "Catch[" + body(3, nil, nil, false) + "]"
		if r.Intn(3) == 0 {
			s.Run("fx[p_] := " + src[len("Catch["):len(src)-1])
			src = "Catch[fx[5]]"
		}
		b.Casef("%s;; %s", strings.Join(prep, "; "), src)
		b.Count("scopes", int64(strings.Count(src, "{s")))
		out := s.Run(src)
		if strings.Contains(out.Src(), "77") {
			b.Count("thrown", 1)
		}
		after := defsOf(s.es, sel)
		if d := diffDefs(before, after); d != "" {
			b.Fail("restored", "evaluating %s changed definitions: %s", src, clip(d, 400))
			return
		}
		if s.es.HasThrown() {
			b.Fail("restored", "%s leaves the session in a throw", src)
			return
		}
		b.Seen(src)
	}
}

// scopeExamples are inputs with known results, each in a cleared session.
var scopeExamples = [][2]string{
	{"x=5; Module[{x=x+1}, x]", "6"},
	{"x=5; {Block[{x=x+1}, x], x}", "{6, 5}"},
	{"x=5; With[{x=x+1}, Hold[x]]", "Hold[6]"},
	{"f[a_] := Module[{b=a}, b=b+1; b]; {f[1], f[f[2]]}", "{2, 4}"},
	{"Module[{t}, t[1]=2; t[1]]", "2"},
	{"Module[{t}, t[n_]:=n^2; t[4]]", "16"},
	{"x=5; Block[{x}, x=7; x]; x", "5"},
	{"x=5; {Catch[Block[{x=9}, Throw[x]]], x}", "{9, 5}"},
	{"{Catch[Table[If[x>2,Throw[x]],{x,5}]], x}", "{3, x}"},
	{"x=3; {Catch[Sum[If[x>2,Throw[x],1],{x,5}]], x}", "{3, 3}"},
	{"f[n_] := Module[{c=n}, (c=c+#)&]; x=f[10]; y=f[20]; {x[1], y[1], x[1], y[5]}", "{11, 21, 12, 26}"},
	{"Function[x, Function[y, x-y]][1][2]", "-1"},
	{"Function[y, Function[x, x-y]][x][2]", "2-x"},
	{"(#1-#2&)[5,3]", "2"},
	{"(Function[x, #+x&][3])[4]", "7"},
	{"f[n_] := If[n<1, 0, n+f[n-1]]; f[20]", "210"},
	{"Module[{x=1,y=x}, {x,y}]", "{1,x}"},
	{"f[] := Block[{x=1}, g[]]; g[] := x+1; f[]", "2"},
	{"g[] := x+1; Module[{x=1}, g[]]", "x+1"},
	{"Block[{g}, g[n_]:=n^2; g[3]]", "9"},
	{"x=1; Block[{x=2}, f[]:=x]; f[]", "1"},
	{"g[_]:=5; {Table[g[1], {g[1], 3}], g[1]}", "{{1,2,3},5}"},
	{"x=0; f[n_]:=(While[True, x=x+1; If[x>n, Return[x*10]]]; 99); {f[3], x}", "{99, 4}"},
	{"f[n_]:=Do[If[x>n, Return[x*10]], {x,10}]; {f[3], x}", "{40, x}"},
	{"Map[Function[x, Map[Function[y, x*10+y], {1,2}]], {1,2}]", "{{11,12},{21,22}}"},
	{"With[{x=y}, Function[y, x+y]][3]", "3+y"},
	{"Module[{x}, x=1; Module[{x=2}, x=x+1]; x]", "1"},
	{"Module[{x=2}, With[{y=x}, x=5; x+y]]", "7"},
	{"f[x_]:=Block[{y=x}, g[x]]; g[n_]:=n+y; f[3]", "6"},
	{"f[n_]:=Module[{x=n}, If[n>0, f[n-1]]; x]; f[5]", "5"},
	{"f[n_]:=Block[{x=n}, If[n>0, f[n-1]]; x]; {f[5], x}", "{5,x}"},
}

func init() {
	register("P12", "random", func(c *Ctx) {
		c.Batch("programs", c.N(9000, 40), func(b *B) { refCheck(b, "P12", true) })
		c.Batch("restored", c.N(6000, 40), scopeRestores)
		c.Batch("fresh", c.N(300, 40), func(b *B) {
			// Locals get names that nothing has, not even by chance.
			s := keptSess("P12f", "ClearAll[v, w]")
			r := b.R
			n := s.Run("$ModuleNumber").I.Int64()
			taken := map[string]bool{}
			for k := int64(0); k < 5; k++ {
				if r.Intn(2) == 0 {
					name := fmt.Sprintf("%s$%d", pick(r, "v", "w"), n+k)
					taken[name] = true
					s.Run(name + pick(r, " = 777", "[1] = 777; "+name+" = 777", " := 777"))
				}
			}
			src := pick(r, "Module[{v}, Hold[v]]", "Module[{v, w}, Hold[v, w]]", "Module[{w = 3, v}, Hold[v, w]]", "Table[Module[{v}, Hold[v]], {k, 3}]",
				"Module[{v}, {Hold[v], Module[{v = 2}, Hold[v]]}]", "{Unique[], Unique[]}", "Module[{v}, {Hold[v], Unique[], Module[{w}, Hold[w]]}]")
			b.Casef("%v;; %s", taken, src)
			t := s.Run(src)
			seen := map[string]int{}
			t.walk(func(x *T) {
				if x.K == kSym && strings.Contains(x.S, "$") {
					seen[strings.TrimPrefix(x.S, "Global`")]++
				}
			})
			b.Count("fresh names", int64(len(seen)))
			if len(seen) == 0 {
				b.Fail("fresh", "%s gives %s", src, t.Src())
			}
			for k, c := range seen {
				if taken[k] || c > 1 {
					b.Fail("fresh", "%s gives %s, but %s is used already (%v)", src, t.Src(), k, taken)
				}
			}
			for k := range taken {
				if got := s.Run(k); got.Src() != "777" {
					b.Fail("fresh", "after %s, %s is %s", src, k, got.Src())
				}
			}
		})
		c.Batch("examples", len(scopeExamples), func(b *B) {
			e := scopeExamples[b.Idx]
			s := keptSess("P12c", "")
			s.Run("ClearAll[x, y, f, g]")
			b.Case(e[0])
			got := s.Run(e[0])
			want := s.Parse("{" + e[1] + "}")
			s.Run("ClearAll[x, y, f, g]")
			if w := s.EvalT(want).A[1]; alphaKey(got) != alphaKey(w) {
				b.Fail("example", "%s gives %s, not %s", e[0], got.Src(), w.Src())
			}
		})
	})
}
