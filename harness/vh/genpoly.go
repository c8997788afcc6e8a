package main

import (
	"math/big"
	"math/rand"
)

// genExact yields an exact number; wild ones have hundreds of bits.
func genExact(r *rand.Rand, wild, complexes bool) cq {
	g := func() *big.Rat {
		if wild && r.Intn(2) == 0 {
			return randRat(r)
		}
		if r.Intn(2) == 0 {
			return big.NewRat(int64(r.Intn(25)-8), 1)
		}
		return randSmallRat(r)
	}
	if complexes && r.Intn(4) == 0 {
		return cq{g(), g()}
	}
	return cqRat(g())
}

// genPoly is a term of + * ^ over x, y, z and exact numbers.
func genPoly(r *rand.Rand, d int, neg bool) *T {
	if d == 0 || r.Intn(5) == 0 {
		if r.Intn(3) == 0 {
			return genExact(r, r.Intn(6) == 0, r.Intn(4) == 0).T()
		}
		return sym(pick(r, "x", "y", "z"))
	}
	switch r.Intn(7) {
	case 0, 1, 2:
		ts := []*T{}
		for i := 0; i < 2+r.Intn(3); i++ {
			ts = append(ts, genPoly(r, d-1, neg))
		}
		return sfn("Plus", ts...)
	case 3, 4:
		ts := []*T{}
		for i := 0; i < 2+r.Intn(3); i++ {
			ts = append(ts, genPoly(r, d-1, neg))
		}
		return sfn("Times", ts...)
	case 5:
		b := genPoly(r, d-1, neg)
		n := int64(r.Intn(4))
		if neg {
			n = int64(r.Intn(7) - 3)
		}
		return sfn("Power", b, in(n))
	}
	// Near copies, so that terms collect.
	t := genPoly(r, d-1, neg)
	return sfn("Plus", sfn("Times", genExact(r, false, false).T(), t), sfn("Times", t, genExact(r, false, false).T()))
}

func randPoint(r *rand.Rand) map[string]cq {
	env := map[string]cq{}
	for _, n := range []string{"x", "y", "z", "a", "b"} {
		v := big.NewRat(int64(2+r.Intn(900)), int64(1+r.Intn(97)))
		env["Global`"+n] = cq{v, big.NewRat(int64(r.Intn(50)), 7)}
	}
	return env
}
