package main

import (
	"math/big"
	"sort"
	"strings"
)

func isNumT(t *T) bool { return t.K == kInt || t.K == kRat || t.K == kFlt || t.K == kCplx }

func reIm(t *T) (*T, *T) {
	if t.K == kCplx {
		return t.A[0], t.A[1]
	}
	return t, in(0)
}

// ratOf is the exact value of a real number.
func ratOf(t *T) *big.Rat {
	switch t.K {
	case kInt:
		return new(big.Rat).SetInt(t.I)
	case kRat:
		return new(big.Rat).SetFrac(t.I, t.D)
	case kFlt:
		r, _ := t.F.Rat(nil)
		return r
	}
	return nil
}

func numKind(t *T) int {
	switch t.K {
	case kInt:
		return 0
	case kRat:
		return 1
	case kFlt:
		return 2
	}
	return 3
}

func cmpNum(a, b *T) int {
	ar, ai := reIm(a)
	br, bi := reIm(b)
	if c := ratOf(ar).Cmp(ratOf(br)); c != 0 {
		return c
	}
	x, y := ratOf(ai), ratOf(bi)
	if c := new(big.Rat).Abs(x).Cmp(new(big.Rat).Abs(y)); c != 0 {
		return c
	}
	if c := x.Cmp(y); c != 0 {
		return c
	}
	for _, p := range [][2]*T{{a, b}, {ar, br}, {ai, bi}} {
		if d := numKind(p[0]) - numKind(p[1]); d != 0 {
			return d
		}
	}
	return 0
}

func sgn(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

// cmpT is the canonical order as a specification: negative if a goes first.
// Numbers by value, then strings, then everything else; names and strings
// byte by byte; a symbol before a compound term; compound terms by length and
// then part by part. A product is compared factor by factor from the last,
// pairs of numbers deciding only at the end, and a power by its base and then
// its exponent; anything compared with them counts as 1 times it or as it to
// the power 1.
func cmpT(a, b *T) int {
	class := func(t *T) int {
		switch {
		case isNumT(t):
			return 0
		case t.K == kStr:
			return 1
		}
		return 2
	}
	if d := class(a) - class(b); d != 0 {
		return sgn(d)
	}
	switch class(a) {
	case 0:
		return sgn(cmpNum(a, b))
	case 1:
		return strings.Compare(a.S, b.S)
	}
	if a.K == kSym && b.K == kSym {
		return strings.Compare(a.S, b.S)
	}
	at, bt := a.hasHead("Times"), b.hasHead("Times")
	if at || bt {
		if !at {
			a = sfn("Times", in(1), a)
		}
		if !bt {
			b = sfn("Times", in(1), b)
		}
		i, j := len(a.A)-1, len(b.A)-1
		for ; i >= 0 && j >= 0; i, j = i-1, j-1 {
			if isNumT(a.A[i]) && isNumT(b.A[j]) {
				continue
			}
			if c := cmpT(a.A[i], b.A[j]); c != 0 {
				return c
			}
		}
		for k := 0; k < len(a.A) && k < len(b.A); k++ {
			if isNumT(a.A[k]) && isNumT(b.A[k]) {
				if c := cmpT(a.A[k], b.A[k]); c != 0 {
					return c
				}
			}
		}
		return sgn(len(a.A) - len(b.A))
	}
	ap, bp := a.hasHead("Power"), b.hasHead("Power")
	if ap || bp {
		if !ap {
			a = sfn("Power", a, in(1))
		}
		if !bp {
			b = sfn("Power", b, in(1))
		}
	}
	if a.K == kSym {
		return -1
	}
	if b.K == kSym {
		return 1
	}
	if d := len(a.A) - len(b.A); d != 0 {
		return sgn(d)
	}
	for i := range a.A {
		if c := cmpT(a.A[i], b.A[i]); c != 0 {
			return c
		}
	}
	return 0
}

func sortT(ts []*T) []*T {
	out := append([]*T{}, ts...)
	sort.SliceStable(out, func(i, j int) bool { return cmpT(out[i], out[j]) < 0 })
	return out
}
