package main

import (
	"math"
	"math/rand"
)

// realTerm is a random numeric term. kinds: "real" adds machine reals; funcs
// adds elementary functions and constants.
type realGen struct {
	r        *rand.Rand
	reals    bool
	funcs    bool
	complexs bool
	big      bool // long rationals, but not with roots: these are factored
}

func (g *realGen) num() *T {
	switch k := g.r.Intn(10); {
	case g.reals && k < 5:
		switch g.r.Intn(8) {
		case 0:
			return flt(g.r.NormFloat64() * math.Pow(10, float64(g.r.Intn(40)-20)))
		case 1:
			return flt(float64(g.r.Intn(9) - 3))
		}
		return flt(g.r.NormFloat64() * 3)
	case k < 8:
		return in(int64(g.r.Intn(19) - 6))
	case k < 9 || !g.complexs:
		if g.big && g.r.Intn(6) == 0 {
			return ratT(randRat(g.r))
		}
		return ratT(randSmallRat(g.r))
	}
	return cplx(ratT(randSmallRat(g.r)), in(int64(1+g.r.Intn(4))))
}

func (g *realGen) term(d int) *T {
	if d == 0 || g.r.Intn(7) == 0 {
		if g.funcs && g.r.Intn(3) == 0 {
			return sys(pick(g.r, "Pi", "E", "Degree"))
		}
		return g.num()
	}
	switch k := g.r.Intn(10); {
	case k < 3:
		ts := []*T{}
		for i := 0; i < 2+g.r.Intn(3); i++ {
			ts = append(ts, g.term(d-1))
		}
		return sfn("Plus", ts...)
	case k < 6:
		ts := []*T{}
		for i := 0; i < 2+g.r.Intn(3); i++ {
			ts = append(ts, g.term(d-1))
		}
		return sfn("Times", ts...)
	case k < 8 && !g.big || !g.funcs:
		b := g.term(d - 1)
		switch g.r.Intn(4) {
		case 0:
			return sfn("Power", b, in(int64(g.r.Intn(9)-4)))
		case 1:
			if g.reals && !g.big {
				return sfn("Power", b, flt(float64(g.r.Intn(13)-6)/2))
			}
			return sfn("Power", b, in(int64(1+g.r.Intn(4))))
		}
		if g.big {
			return b
		}
		return sfn("Power", b, ratT(randSmallRat(g.r)))
	}
	return sfn(pick(g.r, "Sin", "Cos", "Tan", "Cot", "ArcTan", "Exp", "Log", "Sqrt", "Abs", "Sin", "Cos", "Sqrt", "Re", "Im", "Conjugate"), g.term(d-1))
}

// wellPosed says whether all powers and functions in the term have values, and
// whether all stay inside the real line: positive bases of fractional powers,
// positive logarithms.
func wellPosed(t *T) bool {
	if t.K != kExpr {
		return t.K != kCplx
	}
	for _, a := range t.args() {
		if !wellPosed(a) {
			return false
		}
	}
	x := errEval(t.A[1], nil)
	switch t.A[0].S {
	case "System`Power":
		y := errEval(t.A[2], nil)
		if real(x.v) <= 0 || math.Abs(real(x.v)) < 1e-30 || math.Abs(real(x.v)) > 1e30 || math.Abs(real(y.v)) > 20 {
			return false
		}
	case "System`Log", "System`Sqrt":
		return real(x.v) > 1e-30
	case "System`Sin", "System`Cos", "System`Tan", "System`Cot", "System`Exp":
		return math.Abs(real(x.v)) < 50
	}
	return true
}

// mapT rewrites the leaves; second arguments of the named head stay.
func mapT(t *T, f func(*T) *T, keep string) *T {
	if t.K != kExpr {
		return f(t)
	}
	out := []*T{t.A[0]}
	for i, a := range t.args() {
		if t.hasHead(keep) && i == 1 {
			out = append(out, a)
		} else {
			out = append(out, mapT(a, f, keep))
		}
	}
	return ex(out...)
}

func absC(z complex128) float64 {
	r, i := real(z), imag(z)
	if r < 0 {
		r = -r
	}
	if i < 0 {
		i = -i
	}
	return r + i
}
