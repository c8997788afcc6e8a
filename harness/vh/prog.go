package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// progGen writes closed programs that end: every statement is one line of
// input, over the variables u1..u4, the functions k1..k3 and inert heads.
type progGen struct {
	r     *rand.Rand
	fns   []string // defined so far, one argument each
	local []string
	pure  bool // no assignments, iterators or throws inside expressions
}

var progVars = []string{"u1", "u2", "u3", "u4"}
var progNames = []string{"u1", "u2", "u3", "u4", "k1", "k2", "k3", "sv"}

func newProg(r *rand.Rand) *progGen { return &progGen{r: r} }

// num yields a small exact number.
func (g *progGen) num() string {
	switch g.r.Intn(6) {
	case 0:
		return fmt.Sprintf("%d/%d", 1+g.r.Intn(7), 2+g.r.Intn(5))
	case 1:
		return fmt.Sprintf("(-%d)", 1+g.r.Intn(9))
	case 2:
		return fmt.Sprintf("%d.%s", g.r.Intn(4), pick(g.r, "5", "25", "75"))
	}
	return fmt.Sprint(g.r.Intn(12))
}

func (g *progGen) atom() string {
	r := g.r
	if len(g.local) > 0 && r.Intn(2) == 0 {
		return g.local[r.Intn(len(g.local))]
	}
	switch r.Intn(8) {
	case 0, 1:
		return progVars[r.Intn(len(progVars))]
	case 2, 3:
		return pick(r, "x", "y", "z")
	case 4:
		return escStr(pick(r, "s", "t", "ab"))
	}
	return g.num()
}

func (g *progGen) with(v string, f func() string) string {
	g.local = append(g.local, v)
	s := f()
	g.local = g.local[:len(g.local)-1]
	return s
}

func (g *progGen) fresh() string { return fmt.Sprintf("v%d", len(g.local)) }

func (g *progGen) listE(d int) string {
	r := g.r
	k := r.Intn(5)
	if g.pure && k == 1 {
		k = 2
	}
	switch k {
	case 0:
		return fmt.Sprintf("Range[%d]", r.Intn(5))
	case 1:
		v := g.fresh()
		return g.with(v, func() string {
			return fmt.Sprintf("Table[%s, {%s, %d}]", g.expr(d-1), v, r.Intn(4))
		})
	case 2:
		v := g.fresh()
		l := g.listE(d - 1)
		return g.with(v, func() string { return fmt.Sprintf("Map[Function[%s, %s], %s]", v, g.expr(d-1), l) })
	}
	n := r.Intn(4)
	xs := []string{}
	for i := 0; i < n; i++ {
		xs = append(xs, g.expr(d-1))
	}
	return "{" + strings.Join(xs, ", ") + "}"
}

func (g *progGen) expr(d int) string {
	r := g.r
	if d <= 0 {
		return g.atom()
	}
	k := r.Intn(26)
	if g.pure && (k == 15 || k == 19 || k == 21) {
		k = 6
	}
	switch k {
	case 0, 1:
		return "(" + g.expr(d-1) + " + " + g.expr(d-1) + ")"
	case 2, 3:
		return "(" + g.expr(d-1) + "*" + g.expr(d-1) + ")"
	case 4:
		return "(" + g.expr(d-1) + ")^" + fmt.Sprint(r.Intn(3))
	case 5:
		return "(" + g.expr(d-1) + " - " + g.expr(d-1) + ")"
	case 6:
		return pick(r, "f", "g", "h") + "[" + g.expr(d-1) + ", " + g.expr(d-1) + "]"
	case 7:
		return pick(r, "f", "g", "h") + "[" + g.expr(d-1) + "]"
	case 8:
		if len(g.fns) > 0 {
			return g.fns[r.Intn(len(g.fns))] + "[" + g.expr(d-1) + "]"
		}
		return g.expr(d - 1)
	case 9, 10:
		return g.listE(d)
	case 11:
		return "If[" + g.cond(d-1) + ", " + g.expr(d-1) + ", " + g.expr(d-1) + "]"
	case 12:
		return fmt.Sprintf("(%s /. %s -> %s)", g.expr(d-1), pick(r, "x", "y", "z", "f[a_]", "_Integer", "f"), g.expr(d-1))
	case 13:
		return fmt.Sprintf("(%s /. %s :> %s)", g.expr(d-1), pick(r, "f[a_, b_]", "g[a_]", "{a_, b___}", "h[a__]"), g.with("a", func() string { return g.expr(d - 1) }))
	case 14:
		v := g.fresh()
		init := g.expr(d - 1)
		scopes := []string{"Module", "With", "Block"}
		if g.pure {
			scopes = scopes[:2]
		}
		return g.with(v, func() string {
			return fmt.Sprintf("%s[{%s = %s}, %s]", pick(r, scopes...), v, init, g.expr(d-1))
		})
	case 15:
		v := g.fresh()
		return g.with(v, func() string {
			return fmt.Sprintf("Sum[%s, {%s, 1, %d}]", g.expr(d-1), v, r.Intn(4))
		})
	case 16:
		return "Length[" + g.listE(d) + "]"
	case 17:
		return pick(r, "Reverse", "Total", "Sort", "Union", "First", "Flatten") + "[Join[{" + g.atom() + "}, " + g.listE(d-1) + "]]"
	case 18:
		return fmt.Sprintf("Cases[%s, %s]", g.listE(d-1), pick(r, "_Integer", "f[_]", "x_ /; x > 1", "_Symbol", "a_ + b_"))
	case 19:
		return "(" + progVars[r.Intn(len(progVars))] + " = " + g.expr(d-1) + ")"
	case 20:
		return "(" + g.expr(d-1) + "; " + g.expr(d-1) + ")"
	case 21:
		return "Catch[" + g.expr(d-1) + " + If[" + g.cond(d-1) + ", Throw[" + g.expr(d-1) + "], " + g.expr(d-1) + "]]"
	case 22:
		return fmt.Sprintf("Fold[%s, %s, %s]", pick(r, "Plus", "f", "Times"), g.atom(), g.listE(d-1))
	case 23:
		return "Hold[" + g.expr(d-1) + "]"
	case 24:
		return pick(r, "D[", "Expand[", "ToString[", "Head[", "N[") + g.expr(d-1) + "]"
	}
	return g.atom()
}

func (g *progGen) cond(d int) string {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return g.num() + pick(r, " > ", " < ", " >= ", " == ") + g.num()
	case 1:
		return "MatchQ[" + g.expr(d) + ", " + pick(r, "_", "_Integer", "_f", "{__}", "_Plus") + "]"
	case 2:
		return g.expr(d) + " === " + g.expr(d)
	case 3:
		return "FreeQ[" + g.expr(d) + ", " + pick(r, "x", "y", "f") + "]"
	}
	return pick(r, "True", "False")
}

// stmt yields one line of input.
func (g *progGen) stmt(d int) string {
	r := g.r
	switch r.Intn(10) {
	case 0, 1:
		return progVars[r.Intn(len(progVars))] + " = " + g.expr(d)
	case 2:
		if len(g.fns) < 3 {
			n := fmt.Sprintf("k%d", len(g.fns)+1)
			pat := pick(r, "p_", "p_Integer", "p_ /; FreeQ[p, x]", "{p_, q___}", "f[p_]", "p_Symbol")
			s := g.with("p", func() string {
				saved := g.fns
				body := g.expr(d)
				g.fns = saved
				return n + "[" + pat + "] " + pick(r, ":=", "=") + " " + body
			})
			// Not within its own body: programs end.
			g.fns = append(g.fns, n)
			return s
		}
	case 3:
		return fmt.Sprintf("Do[sv = {sv, %s}, {vv, %d}]", g.with("vv", func() string { return g.expr(d - 1) }), 1+r.Intn(3))
	}
	return g.expr(d)
}

// prog yields a program of n lines that starts by clearing its names and giving
// every variable a value, so that no definition can become circular.
func (g *progGen) prog(n, d int) []string {
	out := []string{"ClearAll[u1, u2, u3, u4, k1, k2, k3, sv]; sv = {}; u1 = 1; u2 = x; u3 = {2, y}; u4 = 1/2; k1[0] = 5"}
	g.fns = nil
	for i := 0; i < n; i++ {
		out = append(out, g.stmt(d))
	}
	return append(out, "{u1, u2, u3, u4, sv}")
}
