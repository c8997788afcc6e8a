package main

import "math/rand"

// patGen makes terms and patterns that have a good chance of matching them.
type patGen struct {
	r      *rand.Rand
	names  []string
	bound  map[string]string // key of a term -> name
	sysOps bool              // use Plus and Times
	noCond bool
	simple bool // only forms with names and blanks
}

var pgAttrs = map[string]rmAttr{
	"Global`oo":    {orderless: true},
	"Global`fl":    {flat: true, oneID: true},
	"Global`fo":    {flat: true, orderless: true, oneID: true},
	"System`Plus":  {flat: true, orderless: true, oneID: true},
	"System`Times": {flat: true, orderless: true, oneID: true},
	"System`Power": {oneID: true},
}

const pgSetup = "SetAttributes[oo, Orderless]; SetAttributes[fl, {Flat, OneIdentity}]; SetAttributes[fo, {Flat, Orderless, OneIdentity}]; noB[q_] := FreeQ[q, b]"

var pgTests = map[string]func(*T) bool{
	"System`IntegerQ": func(t *T) bool { return t.K == kInt },
	"System`EvenQ":    func(t *T) bool { return t.K == kInt && t.I.Bit(0) == 0 },
	"System`AtomQ":    func(t *T) bool { return t.isAtom() },
	"System`NumberQ":  isNumT,
	"System`ListQ":    func(t *T) bool { return t.hasHead("List") },
	"Global`noB": func(t *T) bool {
		ok := true
		t.walk(func(x *T) {
			if x.K == kSym && x.S == "Global`b" {
				ok = false
			}
		})
		return ok
	},
}

// pgCond decides the conditions that the generator writes.
func pgCond(test *T, e rmEnv) bool {
	t := subst(test, e)
	if t.K == kSym {
		return t.S == "System`True"
	}
	switch shortSym(t.A[0].S) {
	case "SameQ":
		return len(t.A) == 3 && same(t.A[1], t.A[2])
	case "UnsameQ":
		return len(t.A) == 3 && !same(t.A[1], t.A[2])
	case "IntegerQ":
		return len(t.A) == 2 && t.A[1].K == kInt
	}
	panic("condition " + t.String())
}

func newRefMatcher() *refMatcher {
	return &refMatcher{attrs: pgAttrs, tests: pgTests, cond: pgCond,
		defaults: map[string]*T{"System`Plus": in(0), "System`Times": in(1), "System`Power": in(1)}}
}

func newPatGen(r *rand.Rand) *patGen {
	return &patGen{r: r, names: []string{"x", "y", "z"}, bound: map[string]string{}}
}

func (g *patGen) atom() *T {
	if g.r.Intn(14) == 0 {
		return pickT(g.r, []*T{rat(1, 2), rat(3, 4), cplx(in(1), in(2)), cplx(rat(1, 2), in(-1)), flt(2.5)})
	}
	return pickT(g.r, []*T{sym("a"), sym("b"), sym("c"), sym("a"), sym("b"), in(0), in(1), in(2), in(3), str("s"), sym("f")})
}

func (g *patGen) heads() []*T {
	hs := []*T{sym("f"), sym("f"), sym("g"), sys("List"), sys("List"), sym("oo"), sym("oo"), sym("fl"), sym("fo"), sym("fo")}
	if g.sysOps {
		hs = append(hs, sys("Plus"), sys("Times"), sys("Plus"), sys("Power"))
	}
	return hs
}

func (g *patGen) term(d int) *T {
	if d == 0 || g.r.Intn(5) == 0 {
		return g.atom()
	}
	h := pickT(g.r, g.heads())
	if g.r.Intn(25) == 0 {
		h = fn("g", g.atom())
	}
	n := g.r.Intn(5)
	at := rmAttr{}
	if h.K == kSym {
		at = pgAttrs[h.S]
	}
	if h.K == kSym && h.S == "System`Power" {
		// Nothing that is large when evaluated.
		return ex(h, pickT(g.r, []*T{sym("a"), sym("b"), fn("f", sym("c"))}), g.atom())
	}
	a := []*T{}
	for ; n > 0; n-- {
		x := g.term(d - 1)
		if len(a) > 0 && g.r.Intn(3) == 0 {
			x = a[g.r.Intn(len(a))]
		}
		if at.flat && h.K == kSym && x.isHead(h.S) {
			a = append(a, x.A[1:]...)
		} else {
			a = append(a, x)
		}
	}
	if len(a) > 6 {
		a = a[:6]
	}
	if at.orderless && g.r.Intn(3) > 0 {
		a = sortT(a)
	}
	return ex(append([]*T{h}, a...)...)
}

func (g *patGen) name(key string) *T {
	if n, ok := g.bound[key]; ok && g.r.Intn(5) > 0 {
		return sym(n)
	}
	n := g.names[g.r.Intn(len(g.names))]
	if key != "" {
		g.bound[key] = n
	}
	return sym(n)
}

func (g *patGen) blank(t *T) *T {
	switch g.r.Intn(3) {
	case 0:
		return sfn("Blank", t.head())
	}
	return sfn("Blank")
}

func (g *patGen) test(t *T) *T {
	ok := []*T{}
	for _, n := range []string{"System`IntegerQ", "System`EvenQ", "System`AtomQ", "System`NumberQ", "System`ListQ", "Global`noB"} {
		if pgTests[n](t) || g.r.Intn(12) == 0 {
			ok = append(ok, &T{K: kSym, S: n})
		}
	}
	if len(ok) == 0 {
		return &T{K: kSym, S: "System`AtomQ"}
	}
	return pickT(g.r, ok)
}

// single makes a pattern for one term.
func (g *patGen) single(t *T, d int, inFlat bool) *T {
	r := g.r
	if g.simple {
		if r.Intn(3) > 0 {
			return sfn("Pattern", g.name(t.Key()), g.blank(t))
		}
		return t
	}
	k := r.Intn(16)
	if inFlat && (k == 6 || k == 7 || k == 8 || k == 9 || k == 10) {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1:
		return g.blank(t)
	case 2, 3, 4:
		return sfn("Pattern", g.name(t.Key()), g.blank(t))
	case 5:
		if inFlat {
			return sfn("PatternTest", sfn("Pattern", g.name(t.Key()), sfn("Blank")), g.test(t))
		}
		return sfn("PatternTest", g.single(t, d, false), g.test(t))
	case 6:
		so := g.sysOps
		g.sysOps = false
		other := g.term(1)
		g.sysOps = so
		alts := []*T{g.single(t, d, false), g.single(other, 1, false)}
		if r.Intn(2) == 0 {
			alts = append(alts, g.single(t, d, false))
		}
		return sfn("Alternatives", shuffleT(r, alts)...)
	case 7:
		if g.noCond {
			break
		}
		v := g.name(t.Key())
		q := sfn("Pattern", v, sfn("Blank"))
		switch r.Intn(4) {
		case 0:
			return sfn("Condition", q, sfn("SameQ", v, t))
		case 1:
			return sfn("Condition", q, sfn("UnsameQ", v, g.atom()))
		case 2:
			return sfn("Condition", q, sfn("IntegerQ", v))
		}
		return sfn("Condition", g.single(t, d, false), boolT(r.Intn(6) > 0))
	case 8:
		o := g.atom()
		if r.Intn(2) == 0 {
			return sfn("Except", o)
		}
		return sfn("Except", o, g.single(t, d, false))
	case 9:
		return sfn("Pattern", g.name(t.Key()), g.single(t, d, false))
	case 10:
		return sfn("HoldPattern", g.single(t, d, false))
	}
	if t.K == kRat && r.Intn(2) == 0 {
		return sfn("Rational", g.single(bigT(t.I), 1, false), g.single(bigT(t.D), 1, false))
	}
	if t.K == kCplx && r.Intn(2) == 0 {
		return sfn("Complex", g.single(t.A[0], 1, false), g.single(t.A[1], 1, false))
	}
	if t.K != kExpr || d == 0 {
		return t
	}
	h := t.A[0]
	at := rmAttr{}
	if h.K == kSym {
		at = pgAttrs[h.S]
	}
	ph := h
	if r.Intn(20) == 0 {
		ph = sfn("Pattern", g.name(h.Key()), sfn("Blank"))
		at = rmAttr{}
	} else if h.K == kExpr {
		ph = g.single(h, d-1, false)
		if ph.hasHead("Optional") {
			ph = h
		}
	}
	return ex(append([]*T{ph}, g.args(t.A[1:], h, at, d)...)...)
}

// args makes patterns for the arguments of a head.
func (g *patGen) args(ts []*T, h *T, at rmAttr, d int) []*T {
	r := g.r
	if at.orderless {
		ts = shuffleT(r, ts)
	}
	out := []*T{}
	seqName := func(x *T) *T {
		if r.Intn(3) > 0 {
			return sfn("Pattern", g.name(""), x)
		}
		return x
	}
	for i := 0; i <= len(ts); {
		k := r.Intn(10)
		left := len(ts) - i
		switch {
		case k == 0:
			n := r.Intn(3)
			if n > left {
				n = left
			}
			q := sfn("BlankNullSequence")
			if r.Intn(3) == 0 {
				like := g.atom()
				if left > 0 {
					like = ts[i]
				}
				q = sfn("BlankNullSequence", like.head())
			}
			q = seqName(q)
			if r.Intn(6) == 0 && !at.flat && left > 0 {
				q = sfn("PatternTest", q, g.test(ts[i]))
			}
			out = append(out, q)
			i += n
		case k == 1 && left > 0:
			n := 1 + r.Intn(3)
			if n > left {
				n = left
			}
			q := sfn("BlankSequence")
			if r.Intn(4) == 0 {
				q = sfn("BlankSequence", ts[i].head())
			}
			q = seqName(q)
			if r.Intn(5) == 0 && !at.flat {
				q = sfn("PatternTest", q, g.test(ts[i]))
			}
			out = append(out, q)
			i += n
		case k == 2 && left > 0 && !g.simple && !at.flat:
			n := 1
			for i+n < len(ts) && r.Intn(2) == 0 {
				n++
			}
			in1 := g.single(ts[i], d-1, false)
			q := sfn("Repeated", in1)
			switch r.Intn(4) {
			case 0:
				q = sfn("Repeated", in1, list(in(int64(n))))
			case 1:
				q = sfn("RepeatedNull", in1)
			}
			if r.Intn(3) == 0 {
				q = sfn("Pattern", g.name(""), q)
			}
			out = append(out, q)
			i += n
		case k == 3 && !g.simple && r.Intn(2) == 0:
			hasDef := h != nil && h.K == kSym && newRefMatcher().defaults[h.S] != nil
			q := sfn("Pattern", g.name(""), sfn("Blank"))
			if hasDef && r.Intn(4) > 0 {
				out = append(out, sfn("Optional", q))
			} else if !at.flat {
				out = append(out, sfn("Optional", q, g.atom()))
			}
			if left > 0 && r.Intn(2) == 0 {
				i++
			}
		case k == 4 && at.flat && left > 1:
			// One blank for several.
			out = append(out, sfn("Pattern", g.name(""), sfn("Blank")))
			i += 2
		case left == 0:
			i++
		default:
			out = append(out, g.single(ts[i], d-1, at.flat))
			i++
		}
		if left == 0 {
			i++
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}
