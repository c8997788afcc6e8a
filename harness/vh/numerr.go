package main

import (
	"math"
	"math/cmplx"
)

// nv is a numeric value with a bound of what rounding may have added.
type nv struct {
	v   complex128
	e   float64
	ok  bool
	cut bool // a branch cut or a pole is too near to say
	re  bool // no imaginary part was ever met
}

const ulp = 4e-16

// errEval is numEval with error bounds.
func errEval(t *T, env map[string]complex128) nv {
	if t.K != kExpr || t.hasHead("Complex") {
		v, ok := numEval(t, env)
		return nv{v: v, e: ulp * cmplx.Abs(v), ok: ok && finite(v), re: imag(v) == 0}
	}
	h := t.A[0]
	if h.K != kSym {
		return nv{}
	}
	args := []nv{}
	cut := false
	for _, a := range t.A[1:] {
		x := errEval(a, env)
		if !x.ok {
			return nv{cut: x.cut}
		}
		cut = cut || x.cut
		args = append(args, x)
	}
	if cut {
		return nv{cut: true}
	}
	out := nv{ok: true, re: true}
	for _, a := range args {
		out.re = out.re && a.re
	}
	switch h.S {
	case "System`Plus":
		for _, a := range args {
			out.v += a.v
			out.e += a.e + ulp*(cmplx.Abs(a.v)+cmplx.Abs(out.v))
		}
	case "System`Times":
		out.v = 1
		for _, a := range args {
			out.e = out.e*(cmplx.Abs(a.v)+a.e) + cmplx.Abs(out.v)*a.e
			out.v *= a.v
			out.e += ulp * cmplx.Abs(out.v)
		}
	default:
		if h.S == "System`Power" && cmplx.Abs(args[0].v) <= 8*args[0].e {
			return nv{cut: true} // may be zero
		}
		eval := func(ds ...complex128) (complex128, bool) {
			ts := []*T{h}
			e2 := map[string]complex128{}
			for i := range args {
				n := string(rune('a' + i))
				e2["arg`"+n] = args[i].v + ds[i]
				ts = append(ts, &T{K: kSym, S: "arg`" + n})
			}
			return numEval(ex(ts...), e2)
		}
		ds := make([]complex128, len(args))
		v, ok := eval(ds...)
		if !ok || !finite(v) {
			return nv{}
		}
		out.v = v
		out.e = 8 * ulp * cmplx.Abs(v)
		for i := range args {
			d := args[i].e
			if d == 0 {
				continue
			}
			dirs := []complex128{complex(d, 0), complex(-d, 0)}
			if !args[i].re {
				dirs = append(dirs, complex(0, d), complex(0, -d))
			}
			m := 0.0
			for _, dir := range dirs {
				ds[i] = dir
				w, ok := eval(ds...)
				ds[i] = 0
				if !ok || !finite(w) {
					return nv{cut: true}
				}
				m = math.Max(m, cmplx.Abs(w-v))
			}
			out.e += m
		}
	}
	if !finite(out.v) || math.IsNaN(out.e) || math.IsInf(out.e, 0) {
		return nv{cut: true}
	}
	out.re = out.re && imag(out.v) == 0
	if out.e > 1e-7*(1e-3+cmplx.Abs(out.v)) {
		out.cut = true
	}
	return out
}

// near says whether a value agrees with the reference within k times its error.
func (a nv) near(v complex128, k float64) bool {
	return cmplx.Abs(a.v-v) <= k*a.e+1e-300
}
