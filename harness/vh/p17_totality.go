package main

import (
	"bytes"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
)

var soupTokens = strings.Split("a b x f y1 Plus List Sequence Pattern Rule $x ctx`v `v 0 1 2 17 3.5 .5 2. 12345678901234567890 \"s\" \"\" \"a\\\"b\" \"\\n\" _ __ ___ x_ x__ x___ _Integer x_f _. x_. # #1 #2 ## #n & + - * / ^ ^^ ! !! ' ( ) [ ] [[ ]] { } , ; ;; : :: := = == != =!= === < > <= >= -> :> /. //. /; /: // @ @@ @@@ /@ //@ && || | . .. ... ~ ? ?? % %% %%% %3 += -= *= /= ++ -- <> =. := ^= ^:= /@ \\[Alpha] \\[Pi] \\[Element] α π ∈ (* *) ` @* /* |-> <| |> \\ \n \t", " ")

var validSrcs = []string{
	"f[x_, y_Integer] := x + y^2 /; y > 0", "{1, 2.5, \"a\", b}[[2 ;; 3]]", "a /. {b -> c, d_ :> e[d]}",
	"x = 3; y++; --z", "Map[#^2 &, {1, 2, 3}]", "If[a == b && c != d, 1, 2]", "a @@ b /@ c", "Module[{x = 1}, x + 1]",
	"a -> b -> c", "!a || b", "f[g[h[]]][1]", "(a + b) (c - d)/e^f!", "x : _ | y__", "a~f~b // g", "<|a -> 1|>", "a.b.c <> d",
	"1 < x <= 3", "-a - -b", "Table[i j, {i, 3}, {j, i}]", "a; b;", "#1 + #2 & [1, 2]", "f''[x]", "a === b =!= c", "%% + %", "g/: f[g] = 1", "x::usage", "?x", "\\[Alpha] + ω",
}

func randText(b *B) string {
	r := b.R
	switch r.Intn(8) {
	case 6, 7: // calls of names that have a form of their own
		return callText(b, 1+r.Intn(4))
	case 0, 1: // token soup
		n := 1 + r.Intn(12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(soupTokens[r.Intn(len(soupTokens))])
			if r.Intn(3) > 0 {
				sb.WriteByte(' ')
			}
		}
		return sb.String()
	case 2, 3: // a damaged valid input
		s := []rune(validSrcs[r.Intn(len(validSrcs))])
		for k := 1 + r.Intn(3); k > 0 && len(s) > 0; k-- {
			i := r.Intn(len(s))
			switch r.Intn(4) {
			case 0:
				s = append(s[:i:i], s[i+1:]...)
			case 1:
				t := []rune(soupTokens[r.Intn(len(soupTokens))])
				s = append(s[:i:i], append(t, s[i:]...)...)
			case 2:
				s = s[:i]
			case 3:
				j := r.Intn(len(s))
				s[i], s[j] = s[j], s[i]
			}
		}
		return string(s)
	case 4: // two valid inputs spliced
		x, y := validSrcs[r.Intn(len(validSrcs))], validSrcs[r.Intn(len(validSrcs))]
		return x[:r.Intn(len(x)+1)] + y[r.Intn(len(y)+1):]
	}
	n := r.Intn(20)
	out := make([]byte, n)
	for i := range out {
		if r.Intn(4) == 0 {
			out[i] = byte(r.Intn(256))
		} else {
			out[i] = byte(32 + r.Intn(95))
		}
	}
	return string(out)
}

var formNames = strings.Split("List Plus Times Power Rational Complex Sqrt Rule RuleDelayed Set SetDelayed Part Slot SlotSequence Blank BlankSequence BlankNullSequence Pattern PatternTest Optional Condition Repeated Alternatives Except Verbatim Span Function Apply Map Infix Sequence StringJoin MessageName Information Out In Subscript Derivative DirectedInfinity CompoundExpression And Or Not Equal Unequal Less Inequality SameQ Dot ReplaceAll ReplaceRepeated TagSet TagSetDelayed Sin Cos Tan ArcTan Cot Log Hold HoldForm FullForm InputForm OutputForm TeXForm TraditionalForm StandardForm Graphics Null Internal`Parens Internal`f System`Error Error Increment PreIncrement Factorial Unset AddTo Element Integer Real String Association Missing", " ")

// callText is well formed: calls with any number of arguments, with operators
// between some of them.
func callText(b *B, d int) string {
	r := b.R
	if d == 0 || r.Intn(8) == 0 {
		return pick(r, "x", "1", "-2", "2.5", "\"s\"", "_", "x_", "#", "{}", "I", "a`b", pick(r, formNames...))
	}
	var a []string
	for r.Intn(5) > 1 {
		a = append(a, callText(b, d-1))
	}
	s := pick(r, formNames...) + "[" + strings.Join(a, ", ") + "]"
	switch r.Intn(8) {
	case 0:
		s = "(" + s + ")"
	case 1:
		s += pick(r, "+", "*", "^", "/", "->", "/.", "==", "<>", ".", ";", "&&", "@", "/@", "@@", "//", ":=", "=") + callText(b, d-1)
	case 2:
		s += pick(r, "[]", "[[1]]", "!", "&", "'", "[x]", "[[]]")
	}
	return s
}

func init() {
	register("P17", "calls of all names with special forms with any arguments, token soup, damaged and spliced valid input, random bytes; each text is parsed as one expression, as a whole file and as an expression list (errors included), the parse is printed in every form and evaluated inside Hold, and the session must still compute afterwards; distinct = distinct texts", func(c *Ctx) {
		c.Batch("text", c.N(320, 30), func(b *B) {
			s := newSess()
			for i := 0; i < 700; i++ {
				src := randText(b)
				b.Casef("%q", src)
				p := guard(func() {
					e := parser.Interp(src, s.es)
					h := s.es.Eval(atoms.E(atoms.S("Hold"), e))
					for _, form := range []string{"InputForm", "OutputForm", "FullForm", "TeXForm"} {
						s.Form(h, form)
					}
					// Get and ReadList read files; only texts that parse to
					// nothing but the Null symbol go through them unheld.
					// An unbalanced "]" would take text out of the hold.
					if strings.Contains(src, "]") {
						return
					}
					buf := bytes.NewBufferString("Hold[" + src + "\n]")
					parser.InterpBuf(buf, "file.m", s.es)
					expreduce.EvalInterpMany("HoldComplete[1]\nHoldComplete["+src+"", "file.m", s.es)
					expreduce.ReadList("HoldComplete[1]\nHoldComplete["+src+"", "file.m", s.es)
					expreduce.EasyRun("HoldComplete["+src+"]", s.es)
				})
				if p != nil {
					b.Fail("crash@"+strings.Split(p.(string), " at ")[1], "%v", p)
					s = newSess()
					continue
				}
				if t, ok := h2(s); !ok {
					b.Fail("unusable", "after that input 1+1 gives %v", t)
					s = newSess()
				}
				b.Seen(src)
			}
		})
		c.Batch("large", 6, func(b *B) {
			s := newSess()
			for _, n := range []int{1000, 20000, 60000} {
				for k, src := range []string{strings.Repeat("1+", n/2) + "1", "{" + strings.Repeat("a,", n/2) + "a}", strings.Repeat(" ", n) + "x", "\"" + strings.Repeat("s", n) + "\"", strings.Repeat("(", n/100) + "x" + strings.Repeat(")", n/100), strings.Repeat("f[", n/100) + "x" + strings.Repeat("]", n/100)} {
					if k != b.Idx {
						continue
					}
					b.Casef("large input kind %d of %d bytes", k, len(src))
					p := guard(func() { parser.Interp(src, s.es) })
					if p != nil {
						b.Fail("crash@"+strings.Split(p.(string), " at ")[1], "%v", p)
						s = newSess()
					}
					if t, ok := h2(s); !ok {
						b.Fail("unusable", "after that input 1+1 gives %v", t)
					}
					b.Seen(src[:1] + strings.Repeat("+", k) + string(rune(n)))
				}
			}
		})
	})
}

func h2(s *Sess) (t *T, ok bool) {
	p := guard(func() { t = s.Run("1+1") })
	if p != nil {
		return sym("crash"), false
	}
	return t, same(t, in(2))
}
