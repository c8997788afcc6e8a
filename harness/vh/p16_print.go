package main

import (
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/corywalker/expreduce/expreduce/parser/parens"
)

// fullNorm turns the full forms of rational and complex numbers into these
// numbers.
func fullNorm(t *T) *T {
	if t.K != kExpr {
		return t
	}
	a := make([]*T, len(t.A))
	for i, x := range t.A {
		a[i] = fullNorm(x)
	}
	num := func(x *T) bool { return x.K == kInt || x.K == kRat || x.K == kFlt }
	if t.hasHead("Rational") && len(a) == 3 && a[1].K == kInt && a[2].K == kInt && a[2].I.Sign() != 0 {
		return ratT(new(big.Rat).SetFrac(a[1].I, a[2].I))
	}
	if t.hasHead("Complex") && len(a) == 3 && num(a[1]) && num(a[2]) {
		return cplx(a[1], a[2])
	}
	return ex(a...)
}

// printable gives atoms whose text holds all of their value.
func printable(r *rand.Rand) *T {
	switch r.Intn(16) {
	case 0, 1, 2, 3, 4:
		return sym(pick(r, "a", "b", "c", "x", "y", "a1"))
	case 5, 6, 7:
		return in(int64(r.Intn(12) - 5))
	case 8:
		k := bigT(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(int64(r.Intn(9)+1)), 64), big.NewInt(int64(r.Intn(3)))))
		if r.Intn(2) == 0 {
			k.I.Neg(k.I)
		}
		return k
	case 9, 10:
		return rat(int64(r.Intn(15)-7), int64(2+r.Intn(6)))
	case 11:
		return flt(float64(r.Intn(81)-40) / 8)
	case 12:
		return flt(float64(r.Intn(9)-4) * pickF(r, 1e4, 100, 0.125, 1.0/512))
	case 13:
		return cplx(ratT(big.NewRat(int64(r.Intn(5)-2), int64(1+r.Intn(2)))), ratT(big.NewRat(int64(r.Intn(5))*2-5, int64(1+r.Intn(2)))))
	case 14:
		return str(pick(r, "", "s", "a b", "q\"q", "b\\s", "\\", "\"", "é", "(*", "x\\\"y", "\\n", "\\101", "\\[Alpha]", "\\:0041"))
	}
	return sys(pick(r, "Pi", "True", "Null", "Infinity", "I", "E"))
}

// near is same up to the six digits with which reals are printed.
func near(a, b *T) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case kFlt:
		x, _ := a.F.Float64()
		y, _ := b.F.Float64()
		return math.Abs(x-y) <= 1.1e-5*math.Abs(y)
	case kExpr, kCplx:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !near(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

// plainReals reports whether the reals of t print without an exponent, which
// the parser does not read.
func plainReals(t *T) bool {
	ok := true
	t.walk(func(n *T) {
		if n.K == kCplx {
			ok = ok && plainReals(n.A[0]) && plainReals(n.A[1])
		}
		if n.K == kFlt && n.F.Sign() != 0 {
			x, _ := n.F.Float64()
			x = math.Abs(x)
			ok = ok && x > 1.1e-4 && x < 999999
		}
	})
	return ok
}

func pickF(r *rand.Rand, a ...float64) float64 { return a[r.Intn(len(a))] }

var printHeads = []string{"Plus", "Plus", "Times", "Times", "Power", "Power", "List", "Rule", "RuleDelayed", "Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual", "SameQ", "UnsameQ", "And", "Or", "Not", "Set", "SetDelayed", "ReplaceAll", "ReplaceRepeated", "StringJoin", "Dot", "Alternatives", "Condition", "PatternTest", "CompoundExpression", "Function", "Map", "Apply", "Factorial", "Span", "Part", "Inequality", "MessageName", "Sqrt", "Slot", "Blank", "Pattern", "Optional", "BlankSequence", "BlankNullSequence", "HoldPattern", "Verbatim", "Except"}

// printTerm is a random term, mostly of the shapes that have a special text.
func printTerm(r *rand.Rand, d int) *T {
	if d <= 0 || r.Intn(5) == 0 {
		return printable(r)
	}
	n := r.Intn(4)
	h := sym(pick(r, "f", "g"))
	switch k := r.Intn(12); {
	case k < 9:
		name := printHeads[r.Intn(len(printHeads))]
		h = sys(name)
		switch name {
		case "Blank", "BlankSequence", "BlankNullSequence":
			p := sfn(name)
			if r.Intn(2) == 0 {
				p = sfn(name, pickT(r, []*T{sym("h"), sys("Integer")}))
			}
			if r.Intn(2) == 0 {
				return sfn("Pattern", sym(pick(r, "x", "y")), p)
			}
			return p
		case "Pattern":
			return sfn("Pattern", sym(pick(r, "x", "y")), printTerm(r, d-1))
		case "Optional":
			p := sfn("Pattern", sym(pick(r, "x", "y")), sfn("Blank"))
			if r.Intn(2) == 0 {
				return sfn("Optional", p)
			}
			return sfn("Optional", p, printTerm(r, d-1))
		case "Part":
			n = 1 + r.Intn(2)
			a := []*T{h, printTerm(r, d-1)}
			for i := 0; i < n; i++ {
				a = append(a, printTerm(r, d-1))
			}
			return ex(a...)
		case "StringJoin":
			a := []*T{h}
			for i := -2; i < n; i++ {
				if r.Intn(2) == 0 {
					a = append(a, str(pick(r, "", "s", "q\"q", "b\\s")))
				} else {
					a = append(a, fn("f", printTerm(r, d-1)), sym("x"))
				}
			}
			return ex(a...)
		case "MessageName":
			return sfn(name, sym("f"), str("tag"))
		case "Sqrt":
			return sfn("Power", printTerm(r, d-1), pickT(r, []*T{rat(1, 2), rat(-1, 2), in(-1), in(-2), in(2)}))
		case "Power":
			n = 2
		case "Rule", "RuleDelayed", "Set", "SetDelayed", "ReplaceAll", "ReplaceRepeated", "Map", "Apply", "Condition", "PatternTest":
			n = 2
		default:
			if n < 2 && r.Intn(3) > 0 {
				n = 2
			}
		}
	case k < 10:
		h = printTerm(r, d-1)
	}
	a := []*T{h}
	for i := 0; i < n; i++ {
		a = append(a, printTerm(r, d-1))
	}
	return ex(a...)
}

// heldNorm brings a held term and the parse of its text to a common form:
// fractions, signs and numbers are written in several ways.
func heldNorm(t *T) *T {
	switch t.K {
	case kRat, kInt, kFlt, kCplx:
		if t.K == kCplx {
			re, im := heldNorm(t.A[0]), heldNorm(sfn("Times", t.A[1], sys("I")))
			if t.A[0].K == kInt && t.A[0].I.Sign() == 0 {
				return im
			}
			return sfn("Plus", re, im)
		}
		return t
	case kExpr:
	default:
		return t
	}
	a := make([]*T, len(t.A))
	for i, x := range t.A {
		a[i] = heldNorm(x)
	}
	if t.hasHead("Sqrt") && len(a) == 2 {
		return heldNorm(sfn("Power", a[1], rat(1, 2)))
	}
	if t.hasHead("Power") && len(a) == 3 && a[2].K == kRat && a[2].I.Sign() < 0 {
		return heldNorm(sfn("Power", sfn("Power", a[1], ratT(new(big.Rat).SetFrac(new(big.Int).Neg(a[2].I), a[2].D))), in(-1)))
	}
	t = ex(a...)
	isTimes := t.hasHead("Times")
	isPow := t.hasHead("Power") && len(a) == 3 && a[2].K == kInt
	if !isTimes && !isPow {
		return t
	}
	// The product of the numbers, whether one is real, and the rest.
	coeff, hasReal := big.NewRat(1, 1), false
	rest := []*T{}
	var add func(x *T, inv bool)
	add = func(x *T, inv bool) {
		v := new(big.Rat)
		switch {
		case x.K == kInt:
			v.SetInt(x.I)
		case x.K == kRat:
			v.SetFrac(x.I, x.D)
		case x.K == kFlt:
			x.F.Rat(v)
			hasReal = true
		case x.hasHead("Times"):
			for _, y := range x.A[1:] {
				add(y, inv)
			}
			return
		case x.hasHead("Power") && len(x.A) == 3 && x.A[2].K == kInt && x.A[2].I.Cmp(big.NewInt(-1)) == 0 && !(x.A[1].K == kInt && x.A[1].I.Sign() == 0):
			add(x.A[1], !inv)
			return
		case x.hasHead("Power") && len(x.A) == 3 && x.A[2].K == kInt && x.A[1].K == kInt && x.A[1].I.Cmp(big.NewInt(10)) == 0 && x.A[2].I.Sign() > 0 && x.A[2].I.BitLen() < 8:
			v.SetInt(new(big.Int).Exp(x.A[1].I, x.A[2].I, nil))
		default:
			if inv {
				x = sfn("Power", x, in(-1))
			}
			rest = append(rest, x)
			return
		}
		if inv {
			if v.Sign() == 0 {
				rest = append(rest, sfn("Power", x, in(-1)))
				return
			}
			v.Inv(v)
		}
		coeff.Mul(coeff, v)
	}
	add(t, false)
	if len(rest) == 1 && coeff.Cmp(big.NewRat(1, 1)) == 0 && !hasReal {
		return rest[0]
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Key() < rest[j].Key() })
	c := ratT(coeff)
	if hasReal {
		c = &T{K: kFlt, F: new(big.Float).SetPrec(200).SetRat(coeff)}
	}
	if len(rest) == 0 {
		return c
	}
	if coeff.Cmp(big.NewRat(1, 1)) != 0 || hasReal {
		rest = append([]*T{c}, rest...)
	}
	return sfn("Times", rest...)
}

func init() {
	register("P16", "random terms of all shapes with a special text, held and evaluated: the FullForm text parses to exactly the term; the InputForm text of an evaluated term evaluates to the term again and the InputForm text of a held term has the value of the term; all pairs of nested operators; distinct = distinct texts", func(c *Ctx) {
		c.Batch("fullform", c.N(64, 16), func(b *B) {
			s := newSess()
			for i := 0; i < 300; i++ {
				t := printTerm(b.R, 1+b.R.Intn(4))
				txt := s.Form(t.Ex(), "FullForm")
				b.Case(t.String())
				got := fullNorm(s.Parse(txt))
				if !near(got, fullNorm(t)) {
					b.Fail("fullform", "prints %s\nwhich parses to %s", txt, got)
				}
				b.Seen(txt)
			}
		})
		c.Batch("inputform", c.N(96, 16), func(b *B) {
			s := newSess()
			for i := 0; i < 150; i++ {
				t := printTerm(b.R, 1+b.R.Intn(4))
				if !tame(t) {
					continue
				}
				b.Casef("evaluating %s", t)
				e := s.EvalT(t)
				if e.size() > 200 || !plainReals(e) || !oneText(e) {
					continue
				}
				txt := s.Form(e.Ex(), "InputForm")
				b.Case(e.String())
				again := s.Run(txt)
				if w := s.EvalT(e); !near(heldNorm(again), heldNorm(w)) && same(w, e) {
					b.Fail("inputform-evaluated", "prints %s\nwhich evaluates to %s", txt, again)
				}
				b.Seen(txt)
			}
		})
		c.Batch("held", c.N(96, 16), func(b *B) {
			s := newSess()
			for i := 0; i < 200; i++ {
				t := printTerm(b.R, 1+b.R.Intn(4))
				txt := s.Form(sfn("Hold", t).Ex(), "InputForm")
				b.Case(t.String())
				got := s.Parse(txt)
				if len(got.A) != 2 || !got.hasHead("Hold") {
					b.Fail("held-shape", "prints %s\nwhich parses to %s", txt, got)
					continue
				}
				b.Seen(txt)
				if x, y := heldNorm(got.A[1]), heldNorm(t); !near(x, y) {
					b.Fail("held", "prints %s\nwhich parses to %s\n%s\n%s", txt, got, x, y)
				}
			}
		})
		c.Batch("real-exponent", 1, func(b *B) {
			s := newSess()
			for _, x := range []string{"10.^6", "2.5*10^20", "1./2^30"} {
				e := s.Run(x)
				b.Known("real-exponent", func() (bool, string) {
					txt := s.Form(e.Ex(), "InputForm")
					return near(s.Run(txt), e), x + " prints " + txt
				})
			}
		})
		c.Batch("needsparens", 1, func(b *B) {
			names := []string{}
			for n := range precOf {
				names = append(names, n)
			}
			names = append(names, "Unknown", "")
			for _, x := range names {
				for _, y := range names {
					b.Casef("NeedsParens(%s, %s)", x, y)
					full := func(n string) string {
						if n == "" {
							return n
						}
						return "System`" + n
					}
					got := parens.NeedsParens(full(x), full(y))
					px, okx := precOf[x]
					py, oky := precOf[y]
					if okx && oky && px <= py && !got {
						b.Fail("needsparens", "gives false")
					}
					if !(okx && oky) && !got {
						b.Fail("needsparens", "gives false for an operator it does not know")
					}
					b.Seen(x + " " + y)
				}
				if parens.NeedsParens("System`"+x, "<TOPLEVEL>") {
					b.Fail("needsparens", "%s at top level gives true", x)
				}
			}
		})
	})
}

// precOf is the table of precedences of P15 by head.
var precOf = func() map[string]int {
	m := map[string]int{}
	for _, o := range synBinary {
		m[o.head] = o.prec
	}
	return m
}()

// tame reports whether evaluating t is cheap.
func tame(t *T) bool {
	ok := true
	t.walk(func(n *T) {
		if n.hasHead("Power") || n.hasHead("Factorial") {
			for _, x := range n.A[1:] {
				ok = ok && x.size() <= 8
			}
			if len(n.A) > 2 && n.A[len(n.A)-1].K != kInt {
				n.A[1].walk(func(x *T) { ok = ok && !(x.K == kInt && x.I.BitLen() > 20) })
			}
			nums := 0
			n.A[len(n.A)-1].walk(func(x *T) {
				ok = ok && !(x.K == kInt && x.I.BitLen() > 7 || x.K == kFlt && !plainReals(x) || x.hasHead("Power"))
				if x.K == kInt || x.K == kFlt || x.K == kRat {
					nums++
				}
			})
			ok = ok && nums < 3
		}
		for _, h := range []string{"Set", "SetDelayed", "ReplaceRepeated", "CompoundExpression", "MessageName"} {
			ok = ok && !n.hasHead(h)
		}
	})
	return ok
}

// oneText reports whether no part of an evaluated term has a text that stands
// for another term of the same value.
func oneText(t *T) bool {
	ok := true
	real, held := false, false
	t.walk(func(n *T) {
		real = real || n.K == kFlt || n.K == kCplx && n.A[0].K == kFlt
		for _, h := range []string{"Rule", "RuleDelayed", "Condition", "Pattern", "Optional", "HoldPattern", "Function", "PatternTest", "Verbatim", "Except"} {
			held = held || n.hasHead(h)
		}
		if n.hasHead("Power") && len(n.A) == 3 && n.A[2].K == kRat && n.A[1].K != kSym {
			ok = false
		}
		if n.hasHead("Optional") && !(len(n.A) > 1 && n.A[1].hasHead("Pattern")) {
			ok = false
		}
	})
	// A real number in a sum or product makes the numbers beside it real,
	// even those that are held.
	return ok && !(real && held)
}
