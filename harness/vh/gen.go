package main

import (
	"math/big"
	"math/rand"
)

var genSyms = []string{"a", "b", "c", "x", "y", "z", "aa", "ab", "x1"}
var genHeads = []string{"f", "g", "h"}
var genSysHeads = []string{"List", "Plus", "Times", "Power", "Rule", "Equal", "And", "Sin", "Blank", "Pattern", "Hold", "Rational", "Complex", "Integer", "StringJoin", "Not"}
var genStrs = []string{"", "a", "b", "ab", "x y", "A", "é", "1", "a\"q", "zz"}

// genNum yields a canonical number of some kind.
func genNum(r *rand.Rand) *T {
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return in(int64(r.Intn(9) - 3))
	case 4:
		return bigT(randBig(r))
	case 5:
		return ratT(randSmallRat(r))
	case 6:
		return flt(float64(r.Intn(41)-20) / 4)
	case 7:
		return flt(r.NormFloat64() * 100)
	}
	im := ratT(big.NewRat(int64(1+r.Intn(5)), int64(1+r.Intn(3))))
	return cplx(in(int64(r.Intn(5)-2)), im)
}

// genSmallNum is genNum without integers that would be slow to factor.
func genSmallNum(r *rand.Rand) *T {
	for {
		t := genNum(r)
		if t.K != kInt || t.I.BitLen() < 20 {
			return t
		}
	}
}

func genAtom(r *rand.Rand) *T {
	switch r.Intn(8) {
	case 0, 1, 2:
		return sym(genSyms[r.Intn(len(genSyms))])
	case 3:
		return str(genStrs[r.Intn(len(genStrs))])
	case 4:
		return sys(pick(r, "True", "False", "Null", "Pi", "Infinity", "List", "Plus"))
	}
	return genNum(r)
}

// genTerm yields any term at all, evaluated or not, well formed or not.
func genTerm(r *rand.Rand, depth int) *T {
	if depth <= 0 || r.Intn(4) == 0 {
		return genAtom(r)
	}
	var h *T
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		h = sym(genHeads[r.Intn(len(genHeads))])
	case 5, 6, 7, 8:
		h = sys(genSysHeads[r.Intn(len(genSysHeads))])
	default:
		h = genTerm(r, depth-1)
	}
	n := r.Intn(4)
	a := []*T{h}
	for i := 0; i < n; i++ {
		a = append(a, genTerm(r, depth-1))
	}
	return ex(a...)
}

// nodes lists pointers to every node.
func nodes(t *T) []*T {
	out := []*T{}
	t.walk(func(n *T) { out = append(out, n) })
	return out
}

// mutate returns a term that differs structurally from t in one place.
func mutate(r *rand.Rand, t *T) *T {
	for {
		c := t.clone()
		ns := nodes(c)
		n := ns[r.Intn(len(ns))]
		switch n.K {
		case kSym:
			*n = *sym(pick(r, "a", "b", "q", "List", "A"))
			if r.Intn(3) == 0 {
				*n = *str("a")
			}
		case kInt:
			switch r.Intn(5) {
			case 0:
				n.I = new(big.Int).Neg(n.I)
			case 1:
				n.I = new(big.Int).Add(n.I, big.NewInt(1))
			case 2:
				n.I = new(big.Int).Lsh(n.I, 64)
			case 3:
				f, _ := new(big.Float).SetInt(n.I).Float64()
				*n = *flt(f)
			default:
				*n = *ratT(new(big.Rat).Add(new(big.Rat).SetInt(n.I), big.NewRat(1, 7)))
			}
		case kRat:
			v := new(big.Rat).SetFrac(n.I, n.D)
			switch r.Intn(3) {
			case 0:
				v.Add(v, big.NewRat(1, 3))
			case 1:
				v.Neg(v)
			default:
				v.Inv(v)
			}
			*n = *ratT(v)
		case kFlt:
			f, _ := n.F.Float64()
			if g := f + 0.125; g != f && r.Intn(2) == 0 {
				*n = *flt(g)
			} else {
				*n = *flt(f*1.5 + 1)
			}
		case kStr:
			switch r.Intn(3) {
			case 0:
				*n = *str(n.S + "a")
			case 1:
				*n = *sym("s" + "ym")
			default:
				*n = *str("a" + n.S)
			}
		case kCplx:
			switch r.Intn(3) {
			case 0:
				n.A = []*T{n.A[1], n.A[0]}
			case 1:
				*n = *sfn("Complex", n.A[0], n.A[1])
			default:
				n.A = []*T{n.A[0], in(17)}
			}
		case kExpr:
			switch k := r.Intn(5); {
			case k == 0 && len(n.A) > 1:
				i := 1 + r.Intn(len(n.A)-1)
				n.A = append(append([]*T{}, n.A[:i]...), n.A[i+1:]...)
			case k == 1:
				i := 1 + r.Intn(len(n.A))
				n.A = append(append(append([]*T{}, n.A[:i]...), genAtom(r)), n.A[i:]...)
			case k == 2 && len(n.A) > 2:
				i, j := r.Intn(len(n.A)), r.Intn(len(n.A))
				n.A[i], n.A[j] = n.A[j], n.A[i]
			case k == 3 && len(n.A) > 2: // regroup
				n.A = []*T{n.A[0], ex(n.A...)}
			default:
				n.A[0] = sym("k")
			}
		}
		c = c.clone()
		if !same(c, t) {
			return c
		}
	}
}
