package main

import (
	"fmt"
	"math/rand"
)

// evalGen writes definitions that end, in layers: bodies use only names of
// lower layers; a, b, c, d have no values.
type evalGen struct{ r *rand.Rand }

type evalOp struct {
	key string // which definition it sets
	t   *T
}

var evalNames = []string{"x1", "f1", "x2", "f2", "x3", "f3"}

// expr may use the first n names, and local as a variable.
func (g evalGen) expr(d, n int, local ...string) *T {
	r := g.r
	sub := func() *T { return g.expr(d-1, n, local...) }
	if d <= 0 || r.Intn(7) == 0 {
		switch {
		case len(local) > 0 && r.Intn(2) == 0:
			return sym(pick(r, local...))
		case n > 0 && r.Intn(3) > 0:
			name := evalNames[r.Intn(n)]
			if name[0] == 'x' {
				return sym(name)
			}
			return fn(name, pickT(r, []*T{in(int64(r.Intn(4))), sym(pick(r, "a", "b")), list(in(1), sym("c"))}))
		case r.Intn(2) == 0:
			return sym(pick(r, "a", "b", "c", "d"))
		}
		return pickT(r, []*T{in(int64(r.Intn(5) - 1)), in(2), rat(1, 2), str("s")})
	}
	switch r.Intn(20) {
	case 0, 1:
		return sfn("Plus", sub(), sub())
	case 2:
		return sfn("Times", sub(), sub())
	case 3:
		return sfn("Power", sub(), in(int64(r.Intn(3))))
	case 4, 5:
		return list(sub(), sub())
	case 6, 7, 8:
		return fn(pick(r, "g", "h"), sub(), sub())
	case 9:
		return fn(pick(r, "g", "h"), sub())
	case 10, 11, 12:
		if n > 0 {
			name := evalNames[r.Intn(n)]
			if name[0] == 'f' {
				return fn(name, sub())
			}
		}
		return sub()
	case 13:
		return sfn("If", sfn(pick(r, "SameQ", "MatchQ", "FreeQ"), sub(), pickT(r, []*T{sym("a"), in(1), sfn("Blank", sys("Integer")), sfn("Blank", sym("g"))})), sub(), sub())
	case 14:
		v := fmt.Sprintf("v%d", len(local))
		return sfn("Map", sfn("Function", sym(v), g.expr(d-1, n, append(append([]string{}, local...), v)...)), list(sub(), sub()))
	case 15:
		return sfn("ReplaceAll", sub(), sfn("Rule", pickT(r, []*T{sym("a"), in(1), fn("g", sfn("Blank"))}), sub()))
	case 16:
		v := fmt.Sprintf("v%d", len(local))
		return sfn("With", list(sfn("Set", sym(v), sub())), g.expr(d-1, n, append(append([]string{}, local...), v)...))
	case 17:
		return sfn(pick(r, "Length", "Head", "Hold", "Reverse"), sfn("Join", list(sub()), list(sub(), sub())))
	case 18:
		return sfn("CompoundExpression", sub(), sub())
	}
	v := fmt.Sprintf("v%d", len(local))
	return sfn("Table", g.expr(d-1, n, append(append([]string{}, local...), v)...), list(sym(v), in(int64(r.Intn(3)))))
}

func (g evalGen) op() evalOp {
	r := g.r
	switch r.Intn(10) {
	case 0: // a constant
		n := pick(r, "x1", "x2", "x3")
		return evalOp{n, sfn("Set", sym(n), pickT(r, []*T{in(int64(r.Intn(4))), str("t"), list(in(1), in(2)), rat(2, 3)}))}
	case 1:
		n := pick(r, evalNames...)
		return evalOp{"-" + n, sfn("ClearAll", sym(n))}
	case 2, 3:
		n := pick(r, "g", "h")
		at := []*T{}
		for _, x := range []string{"Orderless", "Flat", "Listable", "HoldAll", "HoldFirst"} {
			if r.Intn(4) == 0 {
				at = append(at, sys(x))
			}
		}
		return evalOp{"@" + n, sfn("Set", sfn("Attributes", sym(n)), list(at...))}
	}
	k := r.Intn(len(evalNames))
	n := evalNames[k]
	d := 1 + r.Intn(2)
	if n[0] == 'x' {
		return evalOp{n, sfn("SetDelayed", sym(n), g.expr(d, k))}
	}
	blank := sfn("Pattern", sym("p"), sfn("Blank"))
	switch r.Intn(6) {
	case 0, 1, 2:
		return evalOp{n + "_", sfn("SetDelayed", fn(n, blank), g.expr(d, k, "p"))}
	case 3:
		return evalOp{n + "int", sfn("SetDelayed", fn(n, sfn("Pattern", sym("p"), sfn("Blank", sys("Integer")))), g.expr(d, k, "p"))}
	case 4:
		lit := pickT(r, []*T{in(int64(r.Intn(3))), sym("a"), list(in(1), sym("c"))})
		return evalOp{n + lit.Key(), sfn("SetDelayed", fn(n, lit), g.expr(d, k))}
	}
	return evalOp{n + "list", sfn("SetDelayed", fn(n, sfn("Pattern", sym("p"), sfn("Blank", sys("List")))), g.expr(d, k, "p"))}
}
