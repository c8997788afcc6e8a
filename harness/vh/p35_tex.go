package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
)

// texReader reads the TeX of mathematics as a reader would.
type texReader struct {
	toks []string
	i    int
}

type texErr string

func lexTeX(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ':
			i++
			continue
		case c == '\\':
			if j < len(s) && (s[j] == '{' || s[j] == '}') {
				j++
				break
			}
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
		case c >= '0' && c <= '9':
			for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
				j++
			}
			if j < len(s) && s[j] == '.' {
				j++
				for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
					j++
				}
			}
		case c == '"':
			for j < len(s) && s[j] != '"' {
				j++
			}
			j++
		case (c == '=' || c == '&' || c == '|') && j < len(s) && s[j] == c:
			j++
		case c >= 0x80:
			for j < len(s) && s[j] >= 0x80 && s[j] < 0xc0 {
				j++
			}
		}
		if j > len(s) {
			j = len(s)
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func (p *texReader) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *texReader) accept(t ...string) bool {
	for k, x := range t {
		if p.i+k >= len(p.toks) || p.toks[p.i+k] != x {
			return false
		}
	}
	p.i += len(t)
	return true
}

func (p *texReader) need(t ...string) {
	if !p.accept(t...) {
		panic(texErr(fmt.Sprintf("%q expected at %q", strings.Join(t, ""), strings.Join(p.toks[p.i:], " "))))
	}
}

func (p *texReader) rule() *T {
	l := p.or()
	if p.accept("\\to") {
		return sfn("Rule", l, p.rule())
	}
	if p.accept(":", "\\to") {
		return sfn("RuleDelayed", l, p.rule())
	}
	return l
}

func (p *texReader) chain(op, head string, next func() *T) *T {
	a := []*T{next()}
	for p.accept(op) {
		a = append(a, next())
	}
	if len(a) == 1 {
		return a[0]
	}
	return sfn(head, a...)
}

func (p *texReader) or() *T  { return p.chain("||", "Or", p.and) }
func (p *texReader) and() *T { return p.chain("&&", "And", p.rel) }
func (p *texReader) rel() *T { return p.chain("==", "Equal", p.sum) }

func (p *texReader) sum() *T {
	var a []*T
	neg := p.accept("-")
	for {
		t := p.product()
		if neg {
			t = negT(t)
		}
		a = append(a, t)
		switch {
		case p.accept("+"):
			neg = false
		case p.accept("-"):
			neg = true
		default:
			if len(a) == 1 {
				return a[0]
			}
			return sfn("Plus", a...)
		}
	}
}

// negT is -t, a number if t is one.
func negT(t *T) *T {
	switch t.K {
	case kInt:
		return bigT(new(big.Int).Neg(t.I))
	case kFlt:
		return &T{K: kFlt, F: new(big.Float).Neg(t.F)}
	}
	if q := ratOf(t); q != nil {
		return ratT(q.Neg(q))
	}
	return sfn("Times", in(-1), t)
}

func (p *texReader) product() *T {
	a := []*T{p.power()}
	for {
		switch t := p.peek(); {
		case t == "" || strings.Contains("+-,]})&&||==:", t), t == "\\right", t == "\\to":
			if len(a) == 1 {
				return a[0]
			}
			return sfn("Times", a...)
		case t == "\\cdot":
			p.i++
		}
		a = append(a, p.power())
	}
}

func (p *texReader) group() *T {
	p.need("{")
	t := p.rule()
	p.need("}")
	return t
}

func (p *texReader) power() *T {
	b := p.base()
	for {
		switch {
		case p.accept("^"):
			b = sfn("Power", b, p.group())
			if p.peek() == "^" {
				panic(texErr("double superscript"))
			}
		case p.accept("_"):
			b = sfn("Subscript", b, p.group())
		case p.accept("["):
			b = ex(append([]*T{b}, p.items("]")...)...)
		default:
			return b
		}
	}
}

func (p *texReader) items(end ...string) []*T {
	var a []*T
	if p.accept(end...) {
		return nil
	}
	for {
		a = append(a, p.rule())
		if p.accept(end...) {
			return a
		}
		p.need(",")
	}
}

var texFns = map[string]string{"\\sin": "Sin", "\\cos": "Cos", "\\tan": "Tan", "\\cot": "Cot", "\\sec": "Sec", "\\csc": "Csc", "\\log": "Log", "\\exp": "Exp"}
var texNames = map[string]string{"e": "E", "i": "I", "\\pi": "Pi", "\\infty": "Infinity"}

func texName(n string) *T {
	if s, ok := texNames[n]; ok {
		return sys(s)
	}
	switch n {
	case "\\omega":
		return sym("ω")
	case "\\Omega":
		return sym("Ω")
	}
	return sym(n)
}

func (p *texReader) base() *T {
	t := p.peek()
	p.i++
	switch {
	case t == "":
		panic(texErr("the text ends early"))
	case t == "\\frac":
		n, d := p.group(), p.group()
		if n.K == kInt && d.K == kInt && d.I.Sign() != 0 {
			return ratT(new(big.Rat).SetFrac(n.I, d.I))
		}
		if same(n, in(1)) && d.hasHead("Power") && same(d.A[2], rat(1, 2)) {
			return sfn("Power", d.A[1], rat(-1, 2))
		}
		return sfn("Times", n, sfn("Power", d, in(-1)))
	case t == "\\sqrt":
		return sfn("Power", p.group(), rat(1, 2))
	case t == "\\text":
		p.need("{")
		n := p.peek()
		p.i++
		for p.peek() != "}" && p.peek() != "" {
			n += p.peek()
			p.i++
		}
		p.need("}")
		if n[0] >= 'A' && n[0] <= 'Z' {
			// Builtin names have no TeX of their own.
			return sys(n)
		}
		return sym(n)
	case texFns[t] != "":
		p.need("\\left", "(")
		return sfn(texFns[t], p.items("\\right", ")")...)
	case t == "{":
		p.i--
		return p.group()
	case t == "(":
		e := p.rule()
		p.need(")")
		return e
	case t == "\\left":
		if p.accept("(") {
			e := p.rule()
			p.need("\\right", ")")
			return e
		}
		p.need("\\{")
		return list(p.items("\\right", "\\}")...)
	case t[0] == '"':
		return str(strings.Trim(t, "\""))
	case t[0] >= '0' && t[0] <= '9':
		if strings.Contains(t, ".") {
			f, _ := new(big.Float).SetPrec(53).SetString(t)
			return &T{K: kFlt, F: f}
		}
		i, _ := new(big.Int).SetString(t, 10)
		return bigT(i)
	case t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z' || t[0] >= 0x80 || texNames[t] != "" || t == "\\omega" || t == "\\Omega":
		return texName(t)
	}
	panic(texErr(fmt.Sprintf("%q begins nothing", t)))
}

func readTeX(s string) (t *T, err string) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(texErr)
			if !ok {
				panic(r)
			}
			t, err = nil, string(e)
		}
	}()
	p := &texReader{toks: lexTeX(s)}
	t = p.rule()
	if p.i < len(p.toks) {
		return nil, fmt.Sprintf("%q is left over", strings.Join(p.toks[p.i:], " "))
	}
	return t, ""
}

// texGen makes terms TeX can show.
type texGen struct{ r *rand.Rand }

func (g texGen) leaf() *T {
	r := g.r
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return sym(pick(r, "a", "b", "x", "y", "z"))
	case 4:
		return sym(pick(r, "foo", "xy", "alpha", "ω", "Ω", "x1"))
	case 5, 6:
		return in(int64(r.Intn(13) - 6))
	case 7:
		return ratT(randSmallRat(r))
	case 8:
		return sys(pick(r, "Pi", "E", "I", "I", "Infinity"))
	case 9:
		if r.Intn(4) == 0 {
			return flt(float64(r.Intn(41)-20) * math.Pow(10, float64(r.Intn(25)-12)))
		}
		return flt(float64(r.Intn(41)-20) / 8)
	case 10:
		return cplx(pickT(r, []*T{in(2), in(-1), rat(1, 2), in(0)}), pickT(r, []*T{in(1), in(-1), in(3), rat(-2, 3)}))
	}
	return sfn("Subscript", sym("x"), in(int64(r.Intn(4))))
}

func (g texGen) term(d int) *T {
	if d <= 0 {
		return g.leaf()
	}
	r := g.r
	switch r.Intn(13) {
	case 0, 1, 2:
		a := []*T{g.term(d - 1), g.term(d - 1)}
		for r.Intn(3) == 0 {
			a = append(a, g.term(d-2))
		}
		return sfn("Plus", a...)
	case 3, 4, 5:
		a := []*T{g.term(d - 1), g.term(d - 1)}
		for r.Intn(3) == 0 {
			a = append(a, g.term(d-2))
		}
		return sfn("Times", a...)
	case 6:
		return sfn("Power", g.term(d-1), in(int64(r.Intn(8)-4)))
	case 7:
		return sfn("Power", g.term(d-1), pickT(r, []*T{rat(1, 2), rat(-1, 2), rat(1, 3), rat(-3, 2), rat(2, 3)}))
	case 8:
		e := g.leaf()
		if f, _ := floatOf(e); e.K == kFlt && (math.Abs(f) > 6 || math.Abs(f) < 0.1) {
			e = in(3)
		}
		return sfn("Power", g.term(d-1), e)
	case 9:
		return sfn("Power", pickT(r, []*T{in(2), sys("E"), in(-2), sym("y"), rat(1, 2), rat(-2, 3), sym("x")}), sfn("Plus", sym("z"), g.leaf()))
	case 10:
		return fn(pick(r, "f", "g", "foo"), g.term(d-1), g.term(d-2))
	}
	if r.Intn(8) == 0 {
		return sfn("Log", g.term(d-1), g.term(d-2))
	}
	return sfn(pick(r, "Sin", "Cos", "Tan", "Log", "Sin", "Cos", "Log", "Abs"), g.term(d-1))
}

// whole is what can only stand outside or in lists.
func (g texGen) whole(d int) *T {
	r := g.r
	switch r.Intn(9) {
	case 0:
		a := []*T{}
		for r.Intn(4) != 0 {
			a = append(a, g.whole(d-1))
		}
		if r.Intn(4) == 0 {
			a = append(a, bigT(randBig(r)), ratT(randRat(r)))
		}
		return list(a...)
	case 1:
		return sfn(pick(r, "Rule", "RuleDelayed"), g.term(d-1), g.whole(d-1))
	case 2:
		return sfn("Equal", g.term(d-1), g.term(d-1))
	case 3:
		return sfn(pick(r, "And", "Or"), sym("p"), sfn("Or", sym("q"), sfn("Equal", sym("x"), g.term(d-1))))
	}
	return g.term(d)
}

// texPlain says whether the TeX of a term can be expected to say what it is.
func texPlain(t *T) bool {
	ok := true
	t.walk(func(u *T) {
		switch {
		case u.K == kFlt && !texFloat(u):
			ok = false
		case u.K == kCplx:
			for _, a := range u.A {
				ok = ok && (a.K != kFlt || texFloat(a))
			}
		case u.hasHead("DirectedInfinity"), u.hasHead("Inequality"), u.hasHead("Which"), u.hasHead("If"), u.hasHead("ConditionalExpression"):
			ok = false
		}
	})
	return ok
}

// texFloat says whether six digits show the number.
func texFloat(u *T) bool {
	f, _, err := new(big.Float).SetPrec(53).Parse(fmt.Sprintf("%.6g", u.F), 10)
	if err != nil {
		return false
	}
	x, _ := f.Float64()
	y, _ := u.F.Float64()
	return x == y
}

func init() {
	register("P35", "random terms of sums, products, powers, quotients, roots, functions, numbers of all kinds, subscripts, lists, rules and conditions, evaluated or held, in TeXForm; a reader of TeX mathematics turns the text into a term again, whose value is compared; distinct = distinct texts", func(c *Ctx) {
		c.Batch("evaluated", c.N(40, 30), func(b *B) {
			s := keptSess("tex", "")
			g := texGen{b.R}
			for i := 0; i < 400; i++ {
				src := g.whole(1 + b.R.Intn(4))
				b.Casef("TeXForm of the value of %s", src.Src())
				var v *T
				if p := guard(func() { v = s.EvalT(src) }); p != nil || !texPlain(v) || v.size() > 150 {
					b.Count("skipped", 1)
					continue
				}
				checkTeX(b, s, v)
			}
		})
		c.Batch("held", c.N(24, 30), func(b *B) {
			s := keptSess("tex", "")
			g := texGen{b.R}
			for i := 0; i < 400; i++ {
				t := g.whole(1 + b.R.Intn(3))
				b.Casef("TeXForm of %s", t.Src())
				if !texPlain(t) {
					continue
				}
				checkTeX(b, s, t)
			}
		})
	})
}

// sameClose is equality up to the rounding of reals.
func sameClose(a, b *T) bool {
	if a.K == kFlt && b.K == kFlt {
		x, _ := a.F.Float64()
		y, _ := b.F.Float64()
		return x == y || math.Abs(x-y) <= 1e-12*math.Max(math.Abs(x), math.Abs(y))
	}
	if a.K != b.K || len(a.A) != len(b.A) || a.K != kExpr && a.K != kCplx {
		return same(a, b)
	}
	for i := range a.A {
		if !sameClose(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

func undelayed(t *T) *T {
	if t.K != kExpr {
		return t
	}
	out := make([]*T, len(t.A))
	for i, a := range t.A {
		out[i] = undelayed(a)
	}
	if t.hasHead("RuleDelayed") {
		out[0] = sys("RuleLater")
	}
	return ex(out...)
}

func checkTeX(b *B, s *Sess, v *T) {
	text := s.Form(v.Ex(), "TeXForm")
	b.Seen(text)
	b.Count("texts", 1)
	if b.R.Intn(8) == 0 && !mentions(v, "Rule") && !mentions(v, "RuleDelayed") {
		// The other ways to the same text.
		h := sfn("Hold", v)
		for _, w := range []string{"TeXForm", "ToString"} {
			var o string
			if w == "TeXForm" {
				o = s.Form(sfn("TeXForm", h).Ex(), "OutputForm")
			} else if t := s.EvalT(sfn("ToString", h, sys("TeXForm"))); t.K == kStr {
				o = t.S
			}
			b.Count("other ways", 1)
			if i := s.Form(h.Ex(), "TeXForm"); o != i {
				b.Fail("way", "TeXForm of %s is %s, but %s by %s", h.Src(), i, o, w)
			}
		}
	}
	back, err := readTeX(text)
	if err != "" {
		b.Fail("syntax", "the TeX of %s is %s: %s", v.Src(), text, err)
		return
	}
	// The right sides of delayed rules are evaluated too.
	v, back = undelayed(v), undelayed(back)
	var want, got *T
	if p := guard(func() { want, got = s.EvalT(v), s.EvalT(back) }); p != nil {
		return
	}
	if sameClose(want, got) {
		b.Count("same terms", 1)
		return
	}
	env := func() map[string]complex128 {
		return posEnv(b.R, "a", "b", "x", "y", "z", "foo", "xy", "alpha", "ω", "Ω", "x1")
	}
	switch ok, n, at := sameParts(b, want, got, env); {
	case n > 0 && ok:
		b.Count("same values", 1)
		return
	case n > 0:
		b.Fail("value", "the TeX of %s is %s, which stands for %s: %s", v.Src(), text, got.Src(), at)
		return
	}
	reals := mentions(v, "Infinity")
	v.walk(func(u *T) { reals = reals || u.K == kFlt || u.K == kCplx && u.A[0].K == kFlt })
	// Evaluation combines powers of numbers in more than one way.
	want.walk(func(u *T) {
		reals = reals || u.hasHead("Power") && ratOf(u.A[1]) != nil && ratOf(u.A[2]) == nil
	})
	if reals {
		// Arithmetic with reals and infinities depends on the order.
		b.Count("undecided", 1)
		return
	}
	b.Fail("term", "the TeX of %s is %s, which stands for %s, not %s", v.Src(), text, got.Src(), want.Src())
}

// sameParts compares the values of terms, or those of their parts where the
// terms have none. A count of 0 is no answer.
func sameParts(b *B, v, w *T, env func() map[string]complex128) (bool, int, string) {
	if sameClose(v, w) {
		return true, 1, ""
	}
	if ok, n, at := sameValues(b.R, v, w, env); n > 0 {
		return ok, n, at
	}
	if v.K != kExpr || w.K != kExpr || len(v.A) != len(w.A) || v.hasHead("Plus") || v.hasHead("Times") || v.hasHead("Power") {
		return false, 0, ""
	}
	for i := range v.A {
		ok, n, at := sameParts(b, v.A[i], w.A[i], env)
		if n == 0 || !ok {
			return false, n, at
		}
	}
	return true, 1, ""
}
