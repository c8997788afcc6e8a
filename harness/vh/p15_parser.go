package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"unicode"
)

// synPiece is a piece of source text with what it must parse to.
type synPiece struct {
	toks []string // tokens; text is these with or without space between
	prec int
	t    *T
	// chain is the operator that t was made by, if it can still be extended
	// without parentheses.
	chain string
	// What the last operand of a comparison chain and so on ends in.
	closed bool // starts and ends with tokens that glue safely
}

type synGen struct {
	r *rand.Rand
	// Without assignments and other operators that change state.
	pure bool
}

func (g *synGen) atom() synPiece {
	r := g.r
	a := func(txt string, t *T) synPiece { return synPiece{toks: []string{txt}, prec: 100, t: t} }
	switch k := r.Intn(24); {
	case k < 8:
		n := pick(r, "x", "y", "zz", "a1", "b$2", "αβ")
		return a(n, sym(n))
	case k < 12:
		n := int64(r.Intn(20))
		return a(fmt.Sprint(n), in(n))
	case k < 13:
		t := bigT(new(big.Int).Lsh(big.NewInt(int64(r.Intn(1000)+1)), uint(60+r.Intn(100))))
		return a(t.String(), t)
	case k < 15:
		f := float64(r.Intn(80)) / 8
		txt := fmt.Sprint(f)
		if !strings.Contains(txt, ".") {
			txt += pick(r, ".", ".0", ".00")
		} else if txt[0] == '0' && r.Intn(2) == 0 {
			txt = txt[1:]
		}
		return a(txt, flt(f))
	case k < 16:
		s := pick(r, "", "s", "a b", "(* no *)", "q\"q", "b\\s", "line\nline", "é")
		txt := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n").Replace(s)
		return a("\""+txt+"\"", str(s))
	case k < 17:
		return a("Pi", sys("Pi"))
	case k < 18:
		return a(pick(r, "π", "\\[Pi]"), sys("Pi"))
	case k < 19:
		n := pick(r, "ctx`v", "Global`x", "System`Plus")
		return a(n, &T{K: kSym, S: n})
	case k < 20:
		if r.Intn(2) == 0 {
			return a("#", sfn("Slot", in(1)))
		}
		n := int64(1 + r.Intn(12))
		return a(fmt.Sprintf("#%d", n), sfn("Slot", in(n)))
	case k < 21:
		n := int64(-1)
		txt := "%"
		if r.Intn(2) == 0 {
			n, txt = -2, "%%"
		}
		return a(txt, sfn("Out", sfn("Plus", sys("$Line"), in(n))))
	}
	// Patterns.
	bl := pick(r, "_", "__", "___")
	head := map[string]string{"_": "Blank", "__": "BlankSequence", "___": "BlankNullSequence"}[bl]
	p := sfn(head)
	txt := bl
	if r.Intn(3) == 0 {
		h := pick(r, "h", "Integer")
		txt += h
		if h == "h" {
			p = sfn(head, sym(h))
		} else {
			p = sfn(head, sys(h))
		}
	} else if bl == "_" && r.Intn(3) == 0 {
		if r.Intn(2) == 0 {
			return a("_.", sfn("Optional", p))
		}
		n := pick(r, "x", "y")
		return a(n+"_.", sfn("Optional", sfn("Pattern", sym(n), p)))
	}
	if r.Intn(3) > 0 {
		n := pick(r, "x", "y")
		txt = n + txt
		p = sfn("Pattern", sym(n), p)
	}
	return a(txt, p)
}

func (p synPiece) parens() synPiece {
	return synPiece{toks: append(append([]string{"("}, p.toks...), ")"), prec: 100, t: p.t}
}

func cat(parts ...[]string) []string {
	var out []string
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// operand gives a piece that can stand where an operand of precedence min is
// needed.
func (g *synGen) operand(d, min int) synPiece {
	p := g.gen(d)
	if p.prec < min || g.r.Intn(12) == 0 {
		return p.parens()
	}
	return p
}

func firstRune(toks []string) rune {
	for _, r := range toks[0] {
		return r
	}
	return 0
}

func lastRune(toks []string) rune {
	rs := []rune(toks[len(toks)-1])
	return rs[len(rs)-1]
}

func (g *synGen) gen(d int) synPiece {
	r := g.r
	if d <= 0 {
		return g.atom()
	}
	switch k := r.Intn(20); {
	case k < 1:
		return g.atom()
	case k < 4: // call
		h := g.operand(d-1, 70)
		if r.Intn(2) == 0 {
			h = synPiece{toks: []string{"f"}, prec: 100, t: sym("f")}
		} else if r.Intn(4) == 0 {
			// The head of an operator, written out
			n := pick(r, "Plus", "Times", "And", "Or", "Less", "Equal", "CompoundExpression", "Dot", "StringJoin", "Alternatives")
			h = synPiece{toks: []string{"System`" + n}, prec: 100, t: sys(n)}
		}
		args := []*T{h.t}
		toks := cat(h.toks, []string{"["})
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				toks = append(toks, ",")
			}
			p := g.gen(d - 1)
			toks = cat(toks, p.toks)
			args = append(args, p.t)
		}
		return synPiece{toks: append(toks, "]"), prec: 70, t: ex(args...)}
	case k < 5: // list
		args := []*T{sys("List")}
		toks := []string{"{"}
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				toks = append(toks, ",")
			}
			p := g.gen(d - 1)
			toks = cat(toks, p.toks)
			args = append(args, p.t)
		}
		return synPiece{toks: append(toks, "}"), prec: 100, t: ex(args...)}
	case k < 6: // part
		h := g.operand(d-1, 70)
		args := []*T{sys("Part"), h.t}
		toks := cat(h.toks, []string{"[["})
		for i, n := 0, 1+r.Intn(2); i < n; i++ {
			if i > 0 {
				toks = append(toks, ",")
			}
			p := g.gen(d - 1)
			toks = cat(toks, p.toks)
			args = append(args, p.t)
		}
		return synPiece{toks: append(toks, "]]"), prec: 70, t: ex(args...)}
	case k < 8: // prefix
		switch r.Intn(6) {
		case 0:
			p := g.operand(d-1, 26)
			return synPiece{toks: cat([]string{"!"}, p.toks), prec: 26, t: sfn("Not", p.t)}
		case 1:
			p := g.operand(d-1, 58)
			return synPiece{toks: cat([]string{"√"}, p.toks), prec: 58, t: sfn("Sqrt", p.t)}
		case 2:
			p := g.operand(d-1, 69)
			op := pick(r, "++", "--")
			return synPiece{toks: cat([]string{op}, p.toks), prec: 68, t: sfn(map[string]string{"++": "PreIncrement", "--": "PreDecrement"}[op], p.t)}
		case 3:
			p := g.operand(d-1, 51)
			return synPiece{toks: cat([]string{"+"}, p.toks), prec: 50, t: sfn("Plus", p.t), chain: "Plus"}
		}
		p := g.operand(d-1, 51)
		t := sfn("Times", p.t, in(-1))
		if len(p.toks) == 1 && p.t.K == kInt {
			t = bigT(new(big.Int).Neg(p.t.I))
		} else if len(p.toks) == 1 && p.t.K == kFlt {
			t = &T{K: kFlt, F: new(big.Float).Neg(p.t.F)}
		}
		return synPiece{toks: cat([]string{"-"}, p.toks), prec: 50, t: t, chain: "Times"}
	case k < 10: // postfix
		switch r.Intn(4) {
		case 0:
			p := g.operand(d-1, 10)
			return synPiece{toks: cat(p.toks, []string{"&"}), prec: 9, t: sfn("Function", p.t)}
		case 1:
			p := g.operand(d-1, 70)
			return synPiece{toks: cat(p.toks, []string{"'"}), prec: 61, t: ex(sfn("Derivative", in(1)), p.t)}
		case 2:
			p := g.operand(d-1, 70)
			op := pick(r, "++", "--")
			return synPiece{toks: cat(p.toks, []string{op}), prec: 69, t: sfn(map[string]string{"++": "Increment", "--": "Decrement"}[op], p.t)}
		}
		// Factorial, parenthesised: see the known findings.
		p := g.operand(d-1, 70)
		return synPiece{toks: cat(p.toks, []string{"!"}), prec: 0, t: sfn("Factorial", p.t)}.parens()
	}
	op := synBinary[r.Intn(len(synBinary))]
	lm, rm := op.prec, op.prec
	switch op.assoc {
	case 'l', 'f', 'c':
		rm++
	case 'r':
		lm++
	case 'n':
		lm++
		rm++
	}
	l, q := g.operand(d-1, lm), g.operand(d-1, rm)
	return synJoin(op, l, q)
}

// synJoin is the piece "l op q", whose operands are parenthesised where
// needed.
func synJoin(op synOp, l, q synPiece) synPiece {
	out := synPiece{prec: op.prec}
	if op.txt == "" {
		// Multiplication without a sign needs operands that cannot be
		// continued in another way.
		safe := func(c rune) bool {
			return unicode.IsLetter(c) || unicode.IsDigit(c) || strings.ContainsRune("()[]{}_", c)
		}
		if !safe(lastRune(l.toks)) {
			l = l.parens()
		}
		if c := firstRune(q.toks); !safe(c) || c == '[' {
			q = q.parens()
		}
		out.toks = cat(l.toks, []string{" "}, q.toks)
	} else {
		out.toks = cat(l.toks, []string{op.txt}, q.toks)
	}
	// After a name with blanks a symbol would be taken for the head.
	head := op.head
	rt := q.t
	switch op.head {
	case "-":
		head, rt = "Plus", sfn("Times", q.t, in(-1))
	case "/":
		out.t = sfn("Times", l.t, sfn("Power", q.t, in(-1)))
		out.chain = "Times"
		return out
	case "Apply1":
		out.t = sfn("Apply", l.t, q.t, list(in(1)))
		return out
	case "":
		if op.txt == "@" {
			out.t = ex(l.t, q.t)
		} else {
			out.t = ex(q.t, l.t)
		}
		return out
	}
	switch op.assoc {
	case 'f':
		out.chain = head
		if l.chain == head && l.t.hasHead(head) {
			out.t = ex(append(append([]*T{}, l.t.A...), rt)...)
			return out
		}
	case 'c':
		out.chain = head
		if cmpHeads[l.chain] && l.chain == head {
			out.t = ex(append(append([]*T{}, l.t.A...), rt)...)
			return out
		}
		if cmpHeads[l.chain] || l.chain == "Inequality" {
			a := []*T{sys("Inequality")}
			if l.chain == "Inequality" {
				a = append(a, l.t.A[1:]...)
			} else {
				for i, x := range l.t.A[1:] {
					if i > 0 {
						a = append(a, sys(l.chain))
					}
					a = append(a, x)
				}
			}
			out.t = ex(append(a, sys(head), rt)...)
			out.chain = "Inequality"
			return out
		}
	}
	out.t = sfn(head, l.t, rt)
	return out
}

var cmpHeads = map[string]bool{"Equal": true, "Unequal": true, "Less": true, "Greater": true, "LessEqual": true, "GreaterEqual": true}

// synText writes tokens with random white space: everywhere where leaving it
// out could join tokens, and where the style asks for it.
func synText(r *rand.Rand, toks []string, style int) string {
	var sb strings.Builder
	depth := 0
	opch := "+-*/.^=<>!&|;:@#?~'%_(\\"
	for i, t := range toks {
		if t == " " {
			sb.WriteString(" ")
			continue
		}
		if i > 0 && toks[i-1] != " " {
			a, b := lastRune(toks[i-1:i]), firstRune(toks[i:i+1])
			word := func(c rune) bool {
				return unicode.IsLetter(c) || unicode.IsDigit(c) || c == '$' || c == '`' || c == '_' || c == '.' || c == '#' || c == '%' || c == '"'
			}
			need := strings.ContainsRune(opch, a) && strings.ContainsRune(opch, b) || word(a) && word(b) || a == '[' && b == '[' || a == ']' && b == ']' ||
				a == '.' && unicode.IsDigit(b) || unicode.IsDigit(a) && b == '.'
			if a == '(' || b == '(' && b != '*' {
				// Only a star after a parenthesis matters.
				need = a == '(' && b == '*' || a == '#' || a == '%'
			}
			if t == "[" || t == "[[" {
				// A call or part; must also work with space.
				need = a == '['
			}
			sp := ""
			if need {
				sp = " "
			}
			switch style {
			case 1:
				sp = " "
			case 2:
				switch k := r.Intn(10); {
				case k < 3:
					sp = "  "
				case k < 4:
					sp = "\t"
				case k < 5:
					sp = "(* c *)"
				case k < 6:
					sp = " (* a (* b *) \"c *) "
				case k < 8 && depth > 0:
					sp = "\n"
				}
			}
			if t == "[" && strings.TrimSpace(sp) != "" && style == 2 {
				sp = " "
			}
			sb.WriteString(sp)
		}
		switch t {
		case "(", "[", "[[", "{":
			depth++
		case ")", "]", "]]", "}":
			depth--
		}
		sb.WriteString(t)
	}
	return sb.String()
}

func init() {
	register("P15", "random source texts built from a table of operators with parentheses only where precedence and associativity need them (and some more), in several spacings with comments: each parses to exactly the tree it was built from; sequences of mixed operators on numbers have the value of the tree; distinct = distinct texts", func(c *Ctx) {
		c.Batch("trees", c.N(160, 16), func(b *B) {
			s := newSess()
			g := &synGen{r: b.R}
			for i := 0; i < 220; i++ {
				p := g.gen(1 + b.R.Intn(5))
				if len(p.toks) > 250 {
					continue
				}
				for style := 0; style < 3; style++ {
					txt := synText(b.R, p.toks, style)
					b.Case(txt)
					got := s.Parse(txt)
					if !same(got, p.t) {
						b.Fail(fmt.Sprintf("parse%d", style), "parses to %s\nwant %s", got, p.t)
					}
					b.Seen(txt)
				}
				b.Count("tokens", int64(len(p.toks)))
			}
		})
		// All pairs of operators, in every order, without parentheses.
		c.Batch("pairs", 8, func(b *B) {
			s := newSess()
			at := func(n string) synPiece { return synPiece{toks: []string{n}, prec: 100, t: sym(n)} }
			n := 0
			for i, o1 := range synBinary {
				for j, o2 := range synBinary {
					for k, o3 := range synBinary {
						if (i+j+k)%8 != b.Idx || (i*37+j*5+k)%3 != 0 {
							continue
						}
						// x o1 y o2 z o3 w by precedence climbing.
						ops := []synOp{o1, o2, o3}
						items := []synPiece{at("x"), at("y"), at("zz"), at("w")}
						p, ok := climb(ops, items)
						if !ok {
							b.Count("non_associative", 1)
							continue
						}
						txt := "x"
						for m, o := range ops {
							txt += " " + o.txt + " " + []string{"y", "zz", "w"}[m]
						}
						b.Case(txt)
						if got := s.Parse(txt); !same(got, p.t) {
							b.Fail("pairs", "parses to %s\nwant %s", got, p.t)
						}
						b.Seen(txt)
						n++
					}
				}
			}
		})
		c.Batch("known", 1, func(b *B) {
			s := newSess()
			for _, k := range [][3]string{
				{"factorial-precedence", "2 + 3!", "8"},
				{"rule-associativity", "Hold[a -> b -> c] === Hold[a -> (b -> c)]", "True"},
				{"colon-precedence", "Hold[x : a -> b] === Hold[(x : a) -> b]", "True"},
			} {
				k := k
				b.Case(k[1])
				b.Known(k[0], func() (bool, string) {
					got := s.Run(k[1]).String()
					return got == k[2], fmt.Sprintf("%s gives %s, not %s", k[1], got, k[2])
				})
			}
		})
	})
}

// climb builds the piece for items joined by ops without parentheses.
func climb(ops []synOp, items []synPiece) (synPiece, bool) {
	if len(ops) == 0 {
		return items[0], true
	}
	// Split at the operator that binds least: the last of these for left
	// associative ones, the first for right associative ones.
	best := 0
	for i, o := range ops {
		if o.prec < ops[best].prec || o.prec == ops[best].prec && (ops[best].assoc == 'l' || ops[best].assoc == 'f' || ops[best].assoc == 'c') {
			best = i
		}
	}
	if ops[best].assoc == 'n' {
		for i, o := range ops {
			if i != best && o.prec == ops[best].prec {
				return synPiece{}, false
			}
		}
	}
	l, ok1 := climb(ops[:best], items[:best+1])
	r, ok2 := climb(ops[best+1:], items[best+1:])
	if !ok1 || !ok2 {
		return synPiece{}, false
	}
	return synJoin(ops[best], l, r), true
}
