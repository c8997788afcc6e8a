package main

import (
	"math/big"
	"math/rand"
	"sort"

	"github.com/corywalker/expreduce/expreduce/atoms"
)

// genOrd yields terms of the kinds that are compared in practice: few symbols,
// so that near ties are common.
func genOrd(r *rand.Rand, depth int) *T {
	if depth <= 0 || r.Intn(3) == 0 {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return sym(pick(r, "a", "b", "x", "y", "aa", "ab", "B"))
		case 4:
			return str(pick(r, "", "a", "b", "ab", "B", "é"))
		case 5:
			return in(int64(r.Intn(7) - 3))
		case 6:
			return ratT(big.NewRat(int64(r.Intn(9)-4), int64(1+r.Intn(3))))
		case 7:
			return flt(float64(r.Intn(17)-8) / 4)
		case 8:
			return genCloseNum(r)
		}
		return cplx(pickT(r, []*T{in(-1), in(0), in(1), rat(1, 2), flt(0.5)}), pickT(r, []*T{in(1), in(-1), in(2), rat(1, 2), flt(1)}))
	}
	n := 1 + r.Intn(3)
	a := []*T{}
	for i := 0; i < n; i++ {
		a = append(a, genOrd(r, depth-1))
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return fn(pick(r, "f", "g"), a...)
	case 3:
		return list(a...)
	case 4:
		return sfn("Plus", a...)
	case 5:
		return sfn("Times", a...)
	case 6:
		return sfn("Power", a[0], genOrd(r, depth-1))
	}
	return ex(append([]*T{genOrd(r, depth-1)}, a...)...)
}

// genCloseNum yields numbers that no real of machine precision tells apart.
func genCloseNum(r *rand.Rand) *T {
	base := new(big.Int).Lsh(big.NewInt(1), uint(52+r.Intn(20)))
	base.Add(base, big.NewInt(int64(r.Intn(5)-2)))
	if r.Intn(4) == 0 {
		base.Neg(base)
	}
	switch r.Intn(4) {
	case 0:
		return bigT(base)
	case 1:
		return ratT(new(big.Rat).SetFrac(base, big.NewInt(int64(2+r.Intn(3)))))
	case 2:
		f, _ := new(big.Float).SetInt(base).Float64()
		return flt(f)
	}
	return ratT(new(big.Rat).SetFrac(base, new(big.Int).Add(base, big.NewInt(1))))
}

// trivialForm: 1 times it and it to the power 1, which evaluation removes, rank
// equal to the plain term.
func trivialForm(t *T) bool {
	found := false
	t.walk(func(n *T) {
		if n.hasHead("Times") {
			for _, a := range n.A[1:] {
				if isNumT(a) && numKind(a) < 3 && ratOf(a).Cmp(big.NewRat(1, 1)) == 0 {
					found = true
				}
			}
			found = found || len(n.A) < 3
		}
		if n.hasHead("Power") && len(n.A) == 3 && isNumT(n.A[2]) && numKind(n.A[2]) < 3 && ratOf(n.A[2]).Cmp(big.NewRat(1, 1)) == 0 {
			found = true
		}
	})
	return found
}

func init() {
	register("P03", "random triples of terms with few symbols (near ties, one-place mutants, numbers closer than a machine real resolves): laws of a total order and agreement with the specified order; Sort, Union, Order and Orderless functions on all or random arrangements of the same elements; distinct = distinct triples or multisets", func(c *Ctx) {
		c.Batch("laws", c.N(400, 30), func(b *B) {
			for i := 0; i < 2000; i++ {
				d := b.R.Intn(4)
				ts := []*T{genOrd(b.R, d), genOrd(b.R, d), genOrd(b.R, d)}
				switch b.R.Intn(4) {
				case 0:
					ts[1] = mutate(b.R, ts[0])
				case 1:
					ts[1] = mutate(b.R, ts[0])
					ts[2] = mutate(b.R, ts[1])
				}
				x, y, z := ts[0].Ex(), ts[1].Ex(), ts[2].Ex()
				b.Casef("%s | %s | %s", ts[0].Src(), ts[1].Src(), ts[2].Src())
				xy, yx, yz, xz := atoms.ExOrder(x, y), atoms.ExOrder(y, x), atoms.ExOrder(y, z), atoms.ExOrder(x, z)
				if xy < -1 || xy > 1 {
					b.Fail("range", "order %d", xy)
				}
				if xy != -yx {
					b.Fail("antisymmetry", "order %d one way and %d the other", xy, yx)
				}
				if (xy == 0) != same(ts[0], ts[1]) && !trivialForm(ts[0]) && !trivialForm(ts[1]) {
					b.Fail("zero", "order of the first two is %d", xy)
				}
				if xy == 1 && yz == 1 && xz != 1 || xy == -1 && yz == -1 && xz != -1 {
					b.Fail("transitivity", "orders %d %d %d", xy, yz, xz)
				}
				if want := int64(-cmpT(ts[0], ts[1])); xy != want {
					b.Fail("rank", "order of the first two is %d, specified %d", xy, want)
				}
				if !same(fromEx(x), ts[0]) || !same(fromEx(y), ts[1]) {
					b.Fail("mutates", "comparing changed a term")
				}
				b.Seen(ts[0].Key() + ts[1].Key() + ts[2].Key())
			}
		})
		c.Batch("sorting", c.N(48, 30), func(b *B) {
			s := newSess()
			s.Run("SetAttributes[ord, Orderless]; SetAttributes[{p}, Orderless]")
			for i := 0; i < 120; i++ {
				n := 2 + b.R.Intn(6)
				ts := []*T{}
				for len(ts) < n {
					t := genOrd(b.R, b.R.Intn(3))
					if len(ts) > 0 && b.R.Intn(3) == 0 {
						t = ts[b.R.Intn(len(ts))]
						if b.R.Intn(2) == 0 {
							t = mutate(b.R, t)
						}
					}
					// Only inert terms, so that nothing but order happens.
					if !inert(t) {
						continue
					}
					ts = append(ts, t)
				}
				want := sortT(ts)
				uniq := []*T{}
				for k, t := range want {
					if k == 0 || !same(t, want[k-1]) {
						uniq = append(uniq, t)
					}
				}
				for k := 0; k < 4; k++ {
					p := shuffleT(b.R, ts)
					h := sym(pick(b.R, "h1", "h2"))
					if b.R.Intn(2) == 0 {
						h = sys("List")
					}
					call := sfn("Sort", ex(append([]*T{h}, p...)...))
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, ex(append([]*T{h}, want...)...)) {
						b.Fail("Sort", "gives %s, want %s", got.Src(), srcs(want))
					}
					cut := b.R.Intn(n + 1)
					call = sfn("Union", ex(append([]*T{h}, p[:cut]...)...), ex(append([]*T{h}, p[cut:]...)...))
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, ex(append([]*T{h}, uniq...)...)) {
						b.Fail("Union", "gives %s, want %s", got.Src(), srcs(uniq))
					}
					call = fn("ord", p...)
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, fn("ord", want...)) {
						b.Fail("Orderless", "gives %s, want %s", got.Src(), srcs(want))
					}
					call = sfn("Order", p[0], p[1])
					b.Case(call.Src())
					if got := s.EvalT(call); !same(got, in(int64(-cmpT(p[0], p[1])))) {
						b.Fail("Order", "gives %s, want %d", got.Src(), -cmpT(p[0], p[1]))
					}
				}
				keys := []string{}
				for _, t := range ts {
					keys = append(keys, t.Key())
				}
				sort.Strings(keys)
				b.Seen(list(want...).Key())
			}
		})
		c.Batch("arith", c.N(32, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				n := 2 + b.R.Intn(4)
				ts := []*T{}
				for len(ts) < n {
					switch b.R.Intn(6) {
					case 0:
						ts = append(ts, ratT(randSmallRat(b.R)))
					case 1:
						ts = append(ts, sfn("Times", ratT(randSmallRat(b.R)), sym(pick(b.R, "x", "y"))))
					case 2:
						ts = append(ts, sfn("Power", sym(pick(b.R, "x", "y", "a")), in(int64(b.R.Intn(4)))))
					case 3:
						ts = append(ts, fn("f", sym(pick(b.R, "x", "y"))))
					case 4:
						ts = append(ts, sfn("Power", sym(pick(b.R, "x", "y", "a")), sym(pick(b.R, "x", "n"))))
					default:
						ts = append(ts, sym(pick(b.R, "x", "y", "a", "b")))
					}
				}
				for _, op := range []string{"Plus", "Times"} {
					b.Case(sfn(op, ts...).Src())
					first := s.EvalT(sfn(op, ts...))
					for k := 0; k < 3; k++ {
						p := shuffleT(b.R, ts)
						if got := s.EvalT(sfn(op, p...)); !same(got, first) {
							b.Fail(op, "%s gives %s, but another order of its arguments gives %s", sfn(op, p...).Src(), got.Src(), first.Src())
						}
					}
					if first.hasHead(op) && !same(first, ex(append([]*T{first.A[0]}, sortT(first.A[1:])...)...)) {
						b.Fail(op+"-sorted", "the result %s is not in canonical order", first.Src())
					}
				}
				b.Seen(list(ts...).Key())
			}
		})
	})
}

// inert: nothing in it evaluates.
func inert(t *T) bool {
	ok := true
	t.walk(func(n *T) {
		if n.K == kExpr {
			h := n.A[0]
			if h.K != kSym || h.S == "Global`ord" || (h.S != "System`List" && len(h.S) > 7 && h.S[:7] == "System`") {
				ok = false
			}
		}
		if n.K == kCplx && (ratOf(n.A[1]).Sign() == 0 || n.A[0].K == kFlt || n.A[1].K == kFlt) {
			ok = false
		}
		if n.K == kRat && new(big.Rat).SetFrac(n.I, n.D).Num().Cmp(n.I) != 0 {
			ok = false
		}
		if n.K == kRat && (n.D.Sign() <= 0 || n.D.Cmp(big.NewInt(1)) == 0) {
			ok = false
		}
	})
	return ok
}
