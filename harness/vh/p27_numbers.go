package main

import (
	"math/big"
	"sort"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

// floorMod is x mod y with the sign of y.
func floorMod(x, y *big.Int) *big.Int {
	m := new(big.Int).Mod(x, y)
	if y.Sign() < 0 && m.Sign() != 0 {
		m.Add(m, y)
	}
	return m
}

func ratGCD(xs []*big.Rat) *big.Rat {
	// over a common denominator
	d := bi(1)
	for _, x := range xs {
		g := new(big.Int).GCD(nil, nil, d, x.Denom())
		d.Mul(d, new(big.Int).Quo(x.Denom(), g))
	}
	n := bi(0)
	for _, x := range xs {
		v := new(big.Rat).Mul(x, new(big.Rat).SetInt(d))
		n.GCD(nil, nil, n, new(big.Int).Abs(v.Num()))
	}
	return new(big.Rat).SetFrac(n, d)
}

func ratLCM(xs []*big.Rat) *big.Rat {
	out := new(big.Rat).Abs(xs[0])
	for _, x := range xs[1:] {
		if x.Sign() == 0 || out.Sign() == 0 {
			return new(big.Rat)
		}
		g := ratGCD([]*big.Rat{out, x})
		out = new(big.Rat).Mul(out, new(big.Rat).Quo(new(big.Rat).Abs(x), g))
	}
	return out
}

func isPrimeSlow(n int64) bool {
	if n < 0 {
		n = -n
	}
	for d := int64(2); d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return n > 1
}

func partitionsRef(n, max, k int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	out := [][]int{}
	if k == 0 {
		return out
	}
	for first := max; first > 0; first-- {
		if first > n {
			continue
		}
		for _, rest := range partitionsRef(n-first, first, k-1) {
			out = append(out, append([]int{first}, rest...))
		}
	}
	return out
}

func permsRef(ts []*T) (out [][]*T) {
	if len(ts) == 0 {
		return [][]*T{{}}
	}
	seen := map[string]bool{}
	for i, t := range ts {
		if seen[t.Key()] {
			continue
		}
		seen[t.Key()] = true
		rest := append(append([]*T{}, ts[:i]...), ts[i+1:]...)
		for _, p := range permsRef(rest) {
			out = append(out, append([]*T{t}, p...))
		}
	}
	return
}

func intsT(xs []int) *T {
	ts := []*T{}
	for _, x := range xs {
		ts = append(ts, in(int64(x)))
	}
	return list(ts...)
}

var pseudoPrimes = []int64{341, 561, 1105, 1729, 2047, 2465, 2821, 3277, 6601, 8911, 15841, 29341, 49141, 65281, 74665, 80581, 85489, 88357, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321}
var smallPrimes = []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}

func init() {
	register("P27", "random integers and rationals (signed, zero, up to 200 bits, pseudoprimes, products of small primes) through every number theoretic and combinatorial function, against math/big, trial division and enumeration; laws between the functions; distinct = distinct calls", func(c *Ctx) {
		eval := func(b *B, s *Sess, key string, call, want *T) {
			b.Case(call.Src())
			if b.R.Intn(4) == 0 && !same(call, want) {
				// the numbers are the values of variables, which keep them
				as := []*T{call.A[0]}
				for i, a := range call.args() {
					v := sym("v" + string(rune('a'+i)))
					s.EvalT(sfn("Set", v, a))
					as = append(as, v)
				}
				got := s.EvalT(ex(as...))
				if !same(got, want) {
					b.Fail(key, "of variables gives %s, want %s", clip(got.Src(), 300), clip(want.Src(), 300))
				}
				for i, a := range call.args() {
					if now := s.EvalT(as[i+1]); !same(now, a) {
						b.Fail("argument", "argument %d of %s has become %s", i+1, call.Src(), clip(now.Src(), 300))
					}
				}
				b.Count("of variables", 1)
			} else if got := s.EvalT(call); !same(got, want) {
				b.Fail(key, "gives %s, want %s", clip(got.Src(), 300), clip(want.Src(), 300))
			}
			b.Count(key, 1)
			b.Seen(call.Key())
		}
		num := func(b *B) *big.Int {
			switch b.R.Intn(4) {
			case 0:
				return randBig(b.R)
			case 1:
				p := bi(1)
				for k := b.R.Intn(6); k > 0; k-- {
					p.Mul(p, bi(smallPrimes[b.R.Intn(len(smallPrimes))]))
				}
				if b.R.Intn(2) == 0 {
					p.Neg(p)
				}
				return p
			}
			return bi(int64(b.R.Intn(61) - 25))
		}
		ratn := func(b *B) *big.Rat {
			switch b.R.Intn(4) {
			case 0:
				return randRat(b.R)
			case 1:
				return randSmallRat(b.R)
			}
			return new(big.Rat).SetInt(num(b))
		}
		c.Batch("divisibility", c.N(32, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 200; i++ {
				x, y := num(b), num(b)
				if y.Sign() == 0 {
					eval(b, s, "Mod0", sfn("Mod", bigT(x), in(0)), sys("Indeterminate"))
					continue
				}
				eval(b, s, "Mod", sfn("Mod", bigT(x), bigT(y)), bigT(floorMod(x, y)))
				r := ratn(b)
				m := floorMod(r.Num(), new(big.Int).Mul(r.Denom(), y))
				eval(b, s, "ModRational", sfn("Mod", ratT(r), bigT(y)), ratT(new(big.Rat).SetFrac(m, r.Denom())))
				eval(b, s, "EvenQ", sfn(pick(b.R, "EvenQ"), bigT(x)), boolT(x.Bit(0) == 0))
				eval(b, s, "OddQ", sfn("OddQ", bigT(x)), boolT(x.Bit(0) == 1))
				rs, ts := []*big.Rat{}, []*T{}
				ints := b.R.Intn(2) == 0
				for k := 1 + b.R.Intn(3); k > 0; k-- {
					v := ratn(b)
					if ints {
						v = new(big.Rat).SetInt(num(b))
					}
					rs = append(rs, v)
					ts = append(ts, ratT(v))
				}
				eval(b, s, "GCD", sfn("GCD", ts...), ratT(ratGCD(rs)))
				eval(b, s, "LCM", sfn("LCM", ts...), ratT(ratLCM(rs)))
				e := bi(int64(b.R.Intn(60) - 10))
				if b.R.Intn(4) == 0 {
					e = new(big.Int).Abs(randBig(b.R))
				}
				my := new(big.Int).Abs(y)
				call := sfn("PowerMod", bigT(x), bigT(e), bigT(y))
				if p := new(big.Int).Exp(x, new(big.Int).Abs(e), my); e.Sign() >= 0 {
					eval(b, s, "PowerMod", call, bigT(floorMod(p, y)))
				} else if inv := new(big.Int).ModInverse(p, my); inv != nil {
					eval(b, s, "PowerModInverse", call, bigT(floorMod(inv, y)))
				} else if my.Cmp(bi(1)) != 0 {
					eval(b, s, "PowerModNone", call, call)
				}
			}
		})
		c.Batch("parts", c.N(16, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 100; i++ {
				r := ratn(b)
				q := new(big.Int).Quo(r.Num(), r.Denom())
				f := new(big.Rat).Sub(r, new(big.Rat).SetInt(q))
				eval(b, s, "IntegerPart", sfn("IntegerPart", ratT(r)), bigT(q))
				eval(b, s, "FractionalPart", sfn("FractionalPart", ratT(r)), ratT(f))
				eval(b, s, "Sign", sfn("Sign", ratT(r)), in(int64(r.Sign())))
				eval(b, s, "Abs", sfn("Abs", ratT(r)), ratT(new(big.Rat).Abs(r)))
				eval(b, s, "Numerator", sfn("Numerator", ratT(r)), bigT(r.Num()))
				eval(b, s, "Denominator", sfn("Denominator", ratT(r)), bigT(r.Denom()))
				n := num(b)
				base := 2 + b.R.Intn(35)
				ds := []*T{}
				for _, d := range new(big.Int).Abs(n).Text(base) {
					v, _ := new(big.Int).SetString(string(d), 36)
					ds = append(ds, bigT(v))
				}
				if new(big.Int).Abs(n).BitLen() < 70 {
					eval(b, s, "IntegerDigits", sfn("IntegerDigits", bigT(n), in(int64(base))), list(ds...))
				}
				if b.R.Intn(20) == 0 {
					// There are no digits to such a base.
					none := sfn("IntegerDigits", bigT(n), in(int64(1-b.R.Intn(4))))
					eval(b, s, "IntegerDigits", none, none)
				}
				eval(b, s, "FromDigits", sfn("FromDigits", list(ds...), in(int64(base))), bigT(new(big.Int).Abs(n)))
			}
		})
		c.Batch("primes", c.N(12, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 120; i++ {
				n := int64(b.R.Intn(20000) - 2000)
				is := isPrimeSlow(n)
				if b.R.Intn(5) == 0 {
					n, is = pseudoPrimes[b.R.Intn(len(pseudoPrimes))], false
				}
				eval(b, s, "PrimeQ", sfn("PrimeQ", in(n)), boolT(is))
				if b.R.Intn(4) == 0 {
					big := new(big.Int).Abs(randBig(b.R))
					eval(b, s, "PrimeQ-big", sfn("PrimeQ", bigT(big)), boolT(big.ProbablyPrime(30)))
				}
				if b.R.Intn(8) == 0 {
					eval(b, s, "PrimeQ-atom", sfn("PrimeQ", pickT(b.R, []*T{sym("a"), rat(7, 2), flt(7), str("7")})), boolT(false))
				}
			}
			for i := 0; i < 12; i++ {
				n := b.R.Intn(3000) - 20
				if n == 1 {
					continue // see the known finding
				}
				cnt := int64(0)
				for k := int64(2); k <= int64(n); k++ {
					if isPrimeSlow(k) {
						cnt++
					}
				}
				eval(b, s, "PrimePi", sfn("PrimePi", in(int64(n))), in(cnt))
				if n > 2 {
					eval(b, s, "PrimePi-real", sfn("PrimePi", flt(float64(n)+[]float64{0.125, 0.5, 0.875}[b.R.Intn(3)])), in(cnt))
				}
				nth, p := int64(1+b.R.Intn(400)), int64(1)
				for k := int64(0); k < nth; {
					if p++; isPrimeSlow(p) {
						k++
					}
				}
				eval(b, s, "Prime", sfn("Prime", in(nth)), in(p))
				if n < 1 {
					call := sfn("Prime", in(int64(n)))
					eval(b, s, "Prime-none", call, call)
				}
			}
			if b.Idx > 0 {
				return
			}
			b.Known("PrimePi-1", func() (bool, string) {
				got := s.Run("PrimePi[1]")
				return same(got, in(0)), "PrimePi[1] gives " + got.Src()
			})
		})
		c.Batch("huge", c.N(4, 20), func(b *B) {
			// arguments no machine integer can hold, for functions that
			// cannot have the value: no other value will do
			s := newSess()
			for i := 0; i < 60; i++ {
				n := new(big.Int).Lsh(big.NewInt(int64(1+b.R.Intn(5))), uint(64+b.R.Intn(2)*b.R.Intn(80)))
				n.Add(n, big.NewInt(int64(b.R.Intn(40))))
				f := pick(b.R, "Prime", "PrimePi", "Factorial", "IntegerPartitions")
				call := sfn(f, bigT(n))
				want := call
				if f == "PrimePi" && b.R.Intn(3) == 0 {
					call, want = sfn(f, bigT(n.Neg(n))), in(0)
				} else if f == "IntegerPartitions" {
					k := int64(1 + b.R.Intn(6))
					call, want = sfn(f, in(k), bigT(n)), sfn(f, in(k))
					want = s.EvalT(want)
				}
				b.Case(call.Src())
				eval(b, s, "huge", call, want)
				b.Seen(call.Key())
			}
		})
		c.Batch("factors", c.N(16, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 30; i++ {
				exps := map[int64]int64{}
				n, d := bi(1), bi(1)
				size := 0.0
				for k := b.R.Intn(6); k > 0; k-- {
					p := smallPrimes[b.R.Intn(len(smallPrimes))]
					size += float64(p)
					if size > 60 {
						break
					}
					if b.R.Intn(3) == 0 && exps[p] <= 0 {
						exps[p]--
						d.Mul(d, bi(p))
					} else if exps[p] >= 0 {
						exps[p]++
						n.Mul(n, bi(p))
					}
				}
				neg := b.R.Intn(4) == 0
				if neg {
					n.Neg(n)
				}
				ps := []int64{}
				for p := range exps {
					ps = append(ps, p)
				}
				sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
				out := []*T{}
				if neg {
					out = append(out, list(in(-1), in(1)))
				}
				for _, p := range ps {
					if exps[p] != 0 {
						out = append(out, list(in(p), in(exps[p])))
					}
				}
				if len(out) == 0 {
					out = append(out, list(in(1), in(1)))
				}
				r := new(big.Rat).SetFrac(n, d)
				eval(b, s, "FactorInteger", sfn("FactorInteger", ratT(r)), list(out...))
				m := 1 + b.R.Intn(120)
				phi := int64(0)
				for k := 1; k <= m; k++ {
					if new(big.Int).GCD(nil, nil, bi(int64(k)), bi(int64(m))).Cmp(bi(1)) == 0 {
						phi++
					}
				}
				if b.R.Intn(3) == 0 {
					m = -m
				}
				eval(b, s, "EulerPhi", sfn("EulerPhi", in(int64(m))), in(phi))
				f0, f1 := bi(0), bi(1)
				nf := b.R.Intn(150)
				for k := 0; k < nf; k++ {
					f0, f1 = f1, new(big.Int).Add(f0, f1)
				}
				eval(b, s, "Fibonacci", sfn("Fibonacci", in(int64(nf))), bigT(f0))
			}
			eval(b, s, "FactorInteger", sfn("FactorInteger", in(0)), list(list(in(0), in(1))))
			eval(b, s, "EulerPhi", sfn("EulerPhi", in(0)), in(0))
		})
		c.Batch("combinatorics", c.N(16, 40), func(b *B) {
			s := newSess()
			g := newListGen(b.R)
			for i := 0; i < 40; i++ {
				n := b.R.Intn(13) - 1
				k := n
				call := sfn("IntegerPartitions", in(int64(n)))
				if b.R.Intn(2) == 0 {
					k = 1 + b.R.Intn(6)
					call = sfn("IntegerPartitions", in(int64(n)), in(int64(k)))
				}
				out := []*T{}
				if n >= 0 {
					for _, p := range partitionsRef(n, n, k) {
						out = append(out, intsT(p))
					}
				}
				eval(b, s, "IntegerPartitions", call, list(out...))
				t := g.data(g.head(), 4)
				out = nil
				for _, p := range permsRef(t.args()) {
					out = append(out, list(p...))
				}
				eval(b, s, "Permutations", sfn("Permutations", t), list(out...))
				f := b.R.Intn(60)
				if b.R.Intn(6) == 0 {
					f = b.R.Intn(300)
				}
				eval(b, s, "Factorial", sfn("Factorial", in(int64(f))), bigT(new(big.Int).MulRange(1, int64(f))))
				sum, den, ts := int64(0), bi(1), []*T{}
				for j := b.R.Intn(4); j > 0; j-- {
					v := int64(b.R.Intn(12))
					sum += v
					den.Mul(den, new(big.Int).MulRange(1, v))
					ts = append(ts, in(v))
				}
				eval(b, s, "Multinomial", sfn("Multinomial", ts...), bigT(new(big.Int).Quo(new(big.Int).MulRange(1, sum), den)))
				l := g.lists(3)
				m := b.R.Intn(4)
				tup := [][]*T{{}}
				for j := 0; j < m; j++ {
					next := [][]*T{}
					for _, p := range tup {
						for _, e := range l.args() {
							next = append(next, append(append([]*T{}, p...), e))
						}
					}
					tup = next
				}
				out = nil
				for _, p := range tup {
					out = append(out, list(p...))
				}
				eval(b, s, "Tuples", sfn("Tuples", l, in(int64(m))), list(out...))
			}
			eval(b, s, "Factorial", sfn("Factorial", in(int64(-1-b.R.Intn(5)))), sys("ComplexInfinity"))
		})
		c.Batch("listable", c.N(8, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 30; i++ {
				f := pick(b.R, "PrimeQ", "EvenQ", "OddQ", "EulerPhi", "Sign", "Abs", "IntegerPart", "Factorial", "Fibonacci", "GCD", "LCM", "Mod", "PowerMod")
				xs, each := []*T{}, []*T{}
				two := f == "GCD" || f == "LCM" || f == "Mod"
				m := in(int64(1 + b.R.Intn(9)))
				for k := b.R.Intn(5); k > 0; k-- {
					x := in(int64(1 + b.R.Intn(30)))
					xs = append(xs, x)
					switch {
					case two:
						each = append(each, sfn(f, x, m))
					case f == "PowerMod":
						each = append(each, sfn(f, x, in(3), m))
					default:
						each = append(each, sfn(f, x))
					}
				}
				call := sfn(f, list(xs...))
				if two {
					call = sfn(f, list(xs...), m)
				} else if f == "PowerMod" {
					call = sfn(f, list(xs...), in(3), m)
				}
				want := []*T{}
				for _, e := range each {
					want = append(want, s.EvalT(e))
				}
				eval(b, s, "listable", call, list(want...))
			}
		})
	})
}
