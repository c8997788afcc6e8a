package main

import (
	"math"
	"math/big"
	"math/cmplx"
)

// cq is an exact Gaussian rational.
type cq struct{ re, im *big.Rat }

func cqInt(i int64) cq            { return cq{big.NewRat(i, 1), new(big.Rat)} }
func cqRat(r *big.Rat) cq         { return cq{r, new(big.Rat)} }
func (a cq) isZero() bool         { return a.re.Sign() == 0 && a.im.Sign() == 0 }
func (a cq) isReal() bool         { return a.im.Sign() == 0 }
func (a cq) eq(b cq) bool         { return a.re.Cmp(b.re) == 0 && a.im.Cmp(b.im) == 0 }
func rAdd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rSub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rMul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func (a cq) add(b cq) cq          { return cq{rAdd(a.re, b.re), rAdd(a.im, b.im)} }
func (a cq) sub(b cq) cq          { return cq{rSub(a.re, b.re), rSub(a.im, b.im)} }
func (a cq) mul(b cq) cq {
	return cq{rSub(rMul(a.re, b.re), rMul(a.im, b.im)), rAdd(rMul(a.re, b.im), rMul(a.im, b.re))}
}
func (a cq) inv() cq {
	n := rAdd(rMul(a.re, a.re), rMul(a.im, a.im))
	n.Inv(n)
	return cq{rMul(a.re, n), new(big.Rat).Neg(rMul(a.im, n))}
}
func (a cq) pow(n int) (cq, bool) {
	if n <= 0 && a.isZero() {
		return a, false
	}
	if n < 0 {
		a, n = a.inv(), -n
	}
	out := cqInt(1)
	for i := 0; i < n; i++ {
		out = out.mul(a)
	}
	return out, true
}

// T is the canonical number.
func (a cq) T() *T {
	if a.isReal() {
		return ratT(a.re)
	}
	return cplx(ratT(a.re), ratT(a.im))
}

// cqOf reads any exact number, canonical or not.
func cqOf(t *T) (cq, bool) {
	switch t.K {
	case kInt:
		return cqRat(new(big.Rat).SetInt(t.I)), true
	case kRat:
		if t.D.Sign() == 0 {
			return cq{}, false
		}
		return cqRat(new(big.Rat).SetFrac(t.I, t.D)), true
	case kCplx:
		a, ok1 := cqOf(t.A[0])
		b, ok2 := cqOf(t.A[1])
		if !ok1 || !ok2 {
			return cq{}, false
		}
		return cq{a.re, b.re}, true
	}
	return cq{}, false
}

// exactEval evaluates a term of + * ^integer over exact numbers and the given
// symbols.
func exactEval(t *T, env map[string]cq) (cq, bool) {
	switch t.K {
	case kInt, kRat, kCplx:
		return cqOf(t)
	case kSym:
		if t.S == "System`I" {
			return cq{new(big.Rat), big.NewRat(1, 1)}, true
		}
		v, ok := env[t.S]
		return v, ok
	case kExpr:
		h := t.A[0]
		if h.K != kSym {
			return cq{}, false
		}
		args := []cq{}
		for _, a := range t.A[1:] {
			v, ok := exactEval(a, env)
			if !ok {
				return v, false
			}
			args = append(args, v)
		}
		switch h.S {
		case "System`Plus":
			s := cqInt(0)
			for _, a := range args {
				s = s.add(a)
			}
			return s, true
		case "System`Times":
			s := cqInt(1)
			for _, a := range args {
				s = s.mul(a)
			}
			return s, true
		case "System`Power":
			if len(args) != 2 || !args[1].isReal() || !args[1].re.IsInt() || !args[1].re.Num().IsInt64() {
				return cq{}, false
			}
			n := args[1].re.Num().Int64()
			if n > 60 || n < -60 {
				return cq{}, false
			}
			return args[0].pow(int(n))
		}
	}
	return cq{}, false
}

// numEval evaluates a term numerically, principal branches throughout.
func numEval(t *T, env map[string]complex128) (complex128, bool) {
	switch t.K {
	case kInt:
		f, _ := new(big.Float).SetInt(t.I).Float64()
		return complex(f, 0), true
	case kRat:
		if t.D.Sign() == 0 {
			return 0, false
		}
		f, _ := new(big.Rat).SetFrac(t.I, t.D).Float64()
		return complex(f, 0), true
	case kFlt:
		f, _ := t.F.Float64()
		return complex(f, 0), true
	case kCplx:
		a, ok1 := numEval(t.A[0], env)
		b, ok2 := numEval(t.A[1], env)
		return a + b*1i, ok1 && ok2
	case kSym:
		switch t.S {
		case "System`Pi":
			return complex(math.Pi, 0), true
		case "System`E":
			return complex(math.E, 0), true
		case "System`I":
			return 1i, true
		case "System`Degree":
			return complex(math.Pi/180, 0), true
		}
		v, ok := env[t.S]
		return v, ok
	case kExpr:
		h := t.A[0]
		if h.K != kSym {
			return 0, false
		}
		args := []complex128{}
		for _, a := range t.A[1:] {
			v, ok := numEval(a, env)
			if !ok {
				return 0, false
			}
			args = append(args, v)
		}
		switch h.S {
		case "System`Plus":
			s := complex128(0)
			for _, a := range args {
				s += a
			}
			return s, true
		case "System`Times":
			s := complex128(1)
			for _, a := range args {
				s *= a
			}
			return s, true
		case "System`Complex":
			if len(args) == 2 {
				return args[0] + args[1]*1i, true
			}
		case "System`Power":
			if len(args) != 2 {
				return 0, false
			}
			if args[0] == 0 {
				if real(args[1]) > 0 {
					return 0, true
				}
				return 0, false
			}
			return cpow(args[0], args[1]), true
		}
		if len(args) != 1 {
			if h.S == "System`ArcTan" && len(args) == 2 && imag(args[0]) == 0 && imag(args[1]) == 0 {
				return complex(math.Atan2(real(args[1]), real(args[0])), 0), true
			}
			return 0, false
		}
		x := args[0]
		switch h.S {
		case "System`Sin":
			return cmplx.Sin(x), true
		case "System`Cos":
			return cmplx.Cos(x), true
		case "System`Tan":
			return cmplx.Tan(x), true
		case "System`Cot":
			return cmplx.Cot(x), true
		case "System`Sec":
			return 1 / cmplx.Cos(x), true
		case "System`Csc":
			return 1 / cmplx.Sin(x), true
		case "System`Sinh":
			return cmplx.Sinh(x), true
		case "System`Cosh":
			return cmplx.Cosh(x), true
		case "System`Tanh":
			return cmplx.Tanh(x), true
		case "System`ArcSin":
			return cmplx.Asin(x), true
		case "System`ArcCos":
			return cmplx.Acos(x), true
		case "System`ArcTan":
			return cmplx.Atan(x), true
		case "System`Exp":
			return cmplx.Exp(x), true
		case "System`Log":
			if x == 0 {
				return 0, false
			}
			return clog(x), true
		case "System`Sqrt":
			return cpow(x, 0.5), true
		case "System`Abs":
			return complex(cmplx.Abs(x), 0), true
		case "System`Re":
			return complex(real(x), 0), true
		case "System`Im":
			return complex(imag(x), 0), true
		case "System`Conjugate":
			return cmplx.Conj(x), true
		case "System`Arg":
			return complex(math.Atan2(imag(x)+0, real(x)), 0), true
		case "System`Hold", "System`HoldForm":
			return x, true
		}
	}
	return 0, false
}

// clog is the principal logarithm, with a negative zero imaginary part read as
// a positive one.
func clog(x complex128) complex128 {
	if imag(x) == 0 {
		x = complex(real(x), 0)
	}
	return cmplx.Log(x)
}

func cpow(a, b complex128) complex128 {
	if imag(a) == 0 && imag(b) == 0 && real(a) > 0 {
		return complex(math.Pow(real(a), real(b)), 0)
	}
	if imag(b) == 0 && real(b) == math.Trunc(real(b)) && math.Abs(real(b)) < 1000 {
		n := int(math.Abs(real(b)))
		out := complex128(1)
		for i := 0; i < n; i++ {
			out *= a
		}
		if real(b) < 0 {
			return 1 / out
		}
		return out
	}
	return cmplx.Exp(b * clog(a))
}

func closeTo(a, b complex128, tol float64) bool {
	d := cmplx.Abs(a - b)
	return d <= tol*(1+math.Max(cmplx.Abs(a), cmplx.Abs(b)))
}

func finite(a complex128) bool {
	return !cmplx.IsInf(a) && !cmplx.IsNaN(a)
}
