package main

import (
	"fmt"
	"math/cmplx"
	"math/rand"
)

// calcGen makes terms of x and y with elementary functions.
type calcGen struct{ r *rand.Rand }

func (g calcGen) leaf() *T {
	switch g.r.Intn(8) {
	case 0, 1, 2, 3:
		return sym("x")
	case 4:
		return sym("y")
	case 5:
		return ratT(randSmallRat(g.r))
	case 6:
		return sys(pick(g.r, "Pi", "E"))
	}
	return in(int64(g.r.Intn(9) - 4))
}

func (g calcGen) term(d int) *T {
	if d <= 0 {
		return g.leaf()
	}
	r := g.r
	switch r.Intn(11) {
	case 0, 1:
		a := []*T{g.term(d - 1), g.term(d - 1)}
		if r.Intn(3) == 0 {
			a = append(a, g.term(d-2))
		}
		return sfn("Plus", a...)
	case 2, 3:
		a := []*T{g.term(d - 1), g.term(d - 1)}
		if r.Intn(3) == 0 {
			a = append(a, g.term(d-2))
		}
		return sfn("Times", a...)
	case 4:
		return sfn("Power", g.term(d-1), in(int64(r.Intn(8)-3)))
	case 5:
		return sfn("Power", g.term(d-1), pickT(r, []*T{rat(1, 2), rat(-1, 2), rat(1, 3), rat(3, 2), rat(2, 3)}))
	case 6:
		return sfn("Power", pickT(r, []*T{in(2), sys("E"), sys("E"), sym("y"), rat(1, 2), sym("x")}), g.term(d-1))
	}
	return sfn(pick(r, "Sin", "Cos", "Sin", "Cos", "Log", "Log", "Exp", "Sqrt", "Tan", "Cot"), g.term(d-1))
}

// posEnv gives the symbols values from the middle of the positive reals.
func posEnv(r *rand.Rand, names ...string) map[string]complex128 {
	e := map[string]complex128{}
	for _, n := range names {
		e["Global`"+n] = complex(0.3+1.7*r.Float64(), 0)
	}
	return e
}

// sameValues says whether two terms have the same value at one of some points
// at least, or cannot be judged; n is the number of points judged.
func sameValues(r *rand.Rand, a, b *T, env func() map[string]complex128) (ok bool, n int, at string) {
	for i := 0; i < 5; i++ {
		e := env()
		x, y := errEval(a, e), errEval(b, e)
		if !x.ok || !y.ok || x.cut || y.cut {
			continue
		}
		n++
		if cmplx.Abs(x.v-y.v) <= 1e3*(x.e+y.e)+1e-9*(cmplx.Abs(x.v)+cmplx.Abs(y.v)) {
			return true, n, ""
		}
		at = fmt.Sprintf("%v and %v at %v", x.v, y.v, e)
	}
	return n == 0, n, at
}

func pick2(r *rand.Rand, n ...int) int { return n[r.Intn(len(n))] }

func floatOf(t *T) (float64, bool) {
	if t.K != kFlt {
		return 0, false
	}
	f, _ := t.F.Float64()
	return f, true
}
