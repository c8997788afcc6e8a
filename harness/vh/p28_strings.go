package main

import (
	"encoding/base64"
	"math/big"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

var strBits = []string{"a", "b", "c", "aa", "ab", " ", "", "é", "∂", "日本", "😀", "\\", "\"", "\\n", "\n", "\t", "(*", "*)", "//", "%", "x_", "[", "]", "1", "0x", "`", "$", "#", "&", "e\u0301"}

// strVal gives a string, often with repetitions.
func strVal(r *rand.Rand) string {
	out := ""
	for k := r.Intn(7); k > 0; k-- {
		out += pick(r, strBits...)
		if r.Intn(4) == 0 {
			out += out
		}
	}
	return out
}

func replaceAllRef(s, from, to string) string {
	var out []byte
	for i := 0; i < len(s); {
		if len(s)-i >= len(from) && s[i:i+len(from)] == from {
			out = append(out, to...)
			i += len(from)
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return string(out)
}

// quoted is the text of a string literal.
func quoted(s string) string {
	out := "\""
	for _, c := range []byte(s) {
		if c == '"' || c == '\\' {
			out += "\\"
		}
		out += string([]byte{c})
	}
	return out + "\""
}

func init() {
	register("P28", "random", func(c *Ctx) {
		// nonStr gives something that is not a string and evaluates to itself.
		nonStr := func(b *B) *T {
			return pickT(b.R, []*T{in(int64(b.R.Intn(4))), sym("u"), fn("g", str("a")), rat(1, 2), sys("True")})
		}
		// eval calls a function with strings that are given directly, held
		// by variables, or results of other calls.
		eval := func(b *B, s *Sess, key string, call, want *T) {
			b.Casef("%s", call.Key())
			b.Seen(call.Key())
			b.Count(key, 1)
			t := call
			vars := map[string]string{}
			if b.R.Intn(2) == 0 {
				a := append([]*T{}, call.A...)
				for i := 1; i < len(a); i++ {
					if a[i].K != kStr {
						continue
					}
					switch b.R.Intn(3) {
					case 0:
						n := pick(b.R, "v1", "v2", "v3")
						if _, ok := vars[n]; !ok {
							vars[n] = a[i].S
							s.EvalT(sfn("Set", sym(n), a[i]))
							a[i] = sym(n)
						}
					case 1:
						k := b.R.Intn(len(a[i].S) + 1)
						for !utf8.ValidString(a[i].S[:k]) {
							k--
						}
						a[i] = sfn("StringJoin", str(a[i].S[:k]), str(a[i].S[k:]))
					}
				}
				t = ex(a...)
			}
			if got := s.EvalT(t); !same(got, want) {
				b.Fail(key, "%s gives %s; expected %s", t.Src(), clip(got.Key(), 200), clip(want.Key(), 200))
			}
			for n, v := range vars {
				if got := s.EvalT(sym(n)); !same(got, str(v)) {
					b.Fail(key+"-changes", "%s changed a variable from %q to %s", t.Src(), v, got.Key())
				}
				s.Clear(n)
			}
		}
		c.Batch("atoms", c.N(40, 10), func(b *B) {
			s := newSess()
			ctx, path := atoms.NewString("Global`"), atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List"), atoms.NewString("System`")})
			form := func(v *atoms.String, f string) string {
				return v.StringForm(expreduceapi.ToStringParams{Form: f, Context: ctx, ContextPath: path, PreviousHead: "<TOPLEVEL>"})
			}
			for i := 0; i < 60; i++ {
				v := strVal(b.R)
				if b.R.Intn(10) == 0 { // any bytes
					x := make([]byte, b.R.Intn(6))
					b.R.Read(x)
					v = string(x)
				}
				w := v
				switch b.R.Intn(4) {
				case 0:
					w = strVal(b.R)
				case 1:
					w = v + " "
				case 2:
					w = strings.ToUpper(v)
				}
				b.Casef("%q %q", v, w)
				b.Seen(v + "\x00" + w)
				b.Count("atom", 1)
				x, y := atoms.NewString(v), atoms.NewString(w)
				if x.GetValue() != v || x.NeedsEval() {
					b.Fail("atom-value", "NewString(%q) has the value %q", v, x.GetValue())
				}
				wantEq := map[bool]string{true: "EQUAL_TRUE", false: "EQUAL_FALSE"}[v == w]
				if got := x.IsEqual(y); got != wantEq {
					b.Fail("atom-equal", "%q and %q: %s", v, w, got)
				}
				if (x.Hash() == y.Hash()) != (v == w) {
					b.Fail("atom-hash", "hashes of %q and %q: %v %v", v, w, x.Hash(), y.Hash())
				}
				cp, _ := x.DeepCopy().(*atoms.String)
				cq, _ := x.Copy().(*atoms.String)
				if cp == nil || cq == nil || cp.Val != v || cq.Val != v {
					b.Fail("atom-copy", "copies of %q: %v %v", v, cp, cq)
				} else {
					cp.Val += "!"
					cq.Val += "!"
					if x.Val != v {
						b.Fail("atom-copy", "a copy of %q shares its value", v)
					}
				}
				for _, f := range []string{"InputForm", "FullForm"} {
					if got := form(x, f); got != quoted(v) {
						b.Fail("atom-form", "%s of %q is %q", f, v, got)
					}
				}
				for _, f := range []string{"OutputForm", "StandardForm", "TraditionalForm"} {
					if got := form(x, f); got != v {
						b.Fail("atom-form", "%s of %q is %q", f, v, got)
					}
				}
				if got := x.String(); got != quoted(v) {
					b.Fail("atom-form", "String of %q is %q", v, got)
				}
				if utf8.ValidString(v) && !strings.ContainsAny(v, "\n\t\r") {
					if got := s.Parse(quoted(v)); !same(got, str(v)) {
						b.Fail("literal", "the literal %s is %s", quoted(v), got.Key())
					}
				}
			}
		})
		c.Batch("functions", c.N(60, 12), func(b *B) {
			s := newSess()
			for i := 0; i < 12; i++ {
				v, w := strVal(b.R), strVal(b.R)
				rs := []rune(v)
				n := int64(len(rs))
				eval(b, s, "StringLength", sfn("StringLength", str(v)), in(n))
				ns := nonStr(b)
				eval(b, s, "StringLength-other", sfn("StringLength", ns), sfn("StringLength", ns))
				eval(b, s, "StringLength-list", sfn("StringLength", list(str(v), str(w), ns)), list(in(n), in(int64(len([]rune(w)))), sfn("StringLength", ns)))

				// joins
				bits, joined := []*T{}, ""
				for k := b.R.Intn(6); k > 0; k-- {
					x := strVal(b.R)
					bits = append(bits, str(x))
					joined += x
				}
				eval(b, s, "StringJoin", sfn("StringJoin", bits...), str(joined))
				eval(b, s, "StringJoin-list", sfn("StringJoin", list(bits...)), str(joined))
				if len(bits) > 1 {
					k := 1 + b.R.Intn(len(bits)-1)
					eval(b, s, "StringJoin-nested", sfn("StringJoin", append(append([]*T{}, bits[:k]...), sfn("StringJoin", bits[k:]...))...), str(joined))
					eval(b, s, "StringJoin-lists", sfn("StringJoin", list(append(append([]*T{}, bits[:k]...), list(bits[k:]...))...)), str(joined))
					other := append([]*T{}, bits...)
					other[b.R.Intn(len(other))] = ns
					eval(b, s, "StringJoin-other", sfn("StringJoin", other...), sfn("StringJoin", other...))
				}

				// parts
				from := 1 + int64(b.R.Intn(len(rs)+2))
				to := from - 1 + int64(b.R.Intn(len(rs)+2))
				call := sfn("StringTake", str(v), list(in(from), in(to)))
				want := call
				if to <= n {
					want = str(string(rs[from-1 : to]))
				}
				eval(b, s, "StringTake", call, want)
				big1 := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(64+b.R.Intn(2))), big.NewInt(to))
				call = pickT(b.R, []*T{sfn("StringTake", str(v), list(in(0), in(1))), sfn("StringTake", str(v), list(in(from), bigT(big1))), sfn("StringTake", ns, list(in(1), in(1))), sfn("StringTake", str(v), list(sym("u"), in(1)))})
				eval(b, s, "StringTake-none", call, call)
				if n > 0 {
					k := int64(b.R.Intn(len(rs) + 1))
					eval(b, s, "StringTake-join", sfn("StringJoin", sfn("StringTake", str(v), list(in(1), in(k))), sfn("StringTake", str(v), list(in(k+1), in(n)))), str(v))
				}

				// replacement
				sub := pick(b.R, strBits...)
				if len(rs) > 0 && b.R.Intn(2) == 0 {
					k := b.R.Intn(len(rs))
					sub = string(rs[k : k+1+b.R.Intn(len(rs)-k)])
				}
				if sub != "" {
					eval(b, s, "StringReplace", sfn("StringReplace", str(v), sfn("Rule", str(sub), str(w))), str(replaceAllRef(v, sub, w)))
				}
				call = pickT(b.R, []*T{sfn("StringReplace", ns, sfn("Rule", str("a"), str(w))), sfn("StringReplace", str(v), str("a")), sfn("StringReplace", str(v), sfn("Rule", str("a"), ns))})
				eval(b, s, "StringReplace-none", call, call)

				// export
				format := pick(b.R, "base64", "Base64", "BASE64")
				eval(b, s, "Base64", sfn("ExportString", str(v), str(format)), str(base64.StdEncoding.EncodeToString([]byte(v))+"\n"))
				eval(b, s, "no format", sfn("ExportString", str(v), str(pick(b.R, "", "base", "x"+format, "base64 "))), sys("$Failed"))

				// text
				eval(b, s, "ToString", sfn("ToString", str(v)), str(v))
				eval(b, s, "ToString-out", sfn("ToString", str(v), sys("OutputForm")), str(v))
				eval(b, s, "ToString-in", sfn("ToString", str(v), sys(pick(b.R, "InputForm", "FullForm"))), str(quoted(v)))
				eval(b, s, "ToString-bad", sfn("ToString", str(v), sym("u")), sfn("ToString", str(v), sym("u")))
				sep := strVal(b.R)
				texts := []string{}
				for _, x := range bits {
					texts = append(texts, x.S)
				}
				if len(bits) > 1 {
					eval(b, s, "Infix", sfn("ToString", sfn("Infix", fn("g", bits...), str(sep)), sys("OutputForm")), str(strings.Join(texts, sep)))
				}
				eval(b, s, "list text", sfn("ToString", list(bits...)), str("{"+strings.Join(texts, ", ")+"}"))
				x := genSafe(b.R)
				for _, f := range []string{"InputForm", "OutputForm", "FullForm"} {
					y := s.EvalT(x)
					want := s.Form(y.Ex(), f)
					got := s.EvalT(sfn("ToString", x, sys(f)))
					b.Count("ToString-any", 1)
					if got.K != kStr || unparen(got.S) != unparen(want) {
						b.Fail("ToString-any", "ToString[%s, %s] is %s; the form is %q", x.Src(), f, got.Key(), want)
					}
				}

				// comparison
				eq := boolT(v == w)
				eval(b, s, "Equal", sfn("Equal", str(v), str(w)), eq)
				eval(b, s, "SameQ", sfn("SameQ", str(v), str(w)), eq)
				eval(b, s, "Unequal", sfn("Unequal", str(v), str(w)), boolT(v != w))
				eval(b, s, "self", sfn("Equal", str(v), str(v)), sys("True"))
				eval(b, s, "MatchQ", sfn("MatchQ", str(v), sfn("Blank", sys("String"))), sys("True"))
				eval(b, s, "MatchQ-lit", sfn("MatchQ", str(v), str(w)), eq)
				eval(b, s, "Head", sfn("Head", str(v)), sys("String"))
				eval(b, s, "AtomQ", sfn("AtomQ", str(v)), sys("True"))
				eval(b, s, "Length", sfn("Length", str(v)), in(0))
				eval(b, s, "number", sfn("SameQ", str("12"), in(12)), sys("False"))
				eval(b, s, "symbol", sfn("SameQ", str("u"), sym("u")), sys("False"))
				if v != w {
					eval(b, s, "Replace", sfn("ReplaceAll", list(str(v), str(w), fn("g", str(v))), sfn("Rule", str(v), in(5))), list(in(5), str(w), fn("g", in(5))))
				}
			}
		})
	})
}

// genSafe gives expressions of symbols, numbers and strings.
func genSafe(r *rand.Rand) *T {
	switch r.Intn(7) {
	case 0:
		return in(int64(r.Intn(20) - 9))
	case 1:
		return sym(pick(r, "u", "w", "z"))
	case 2:
		return str(strVal(r))
	case 3:
		return rat(int64(1+r.Intn(5)), 7)
	case 4:
		return sfn("Plus", sym("u"), sfn("Power", sym("w"), in(int64(2+r.Intn(3)))))
	}
	a := []*T{}
	for k := r.Intn(3); k >= 0; k-- {
		a = append(a, genSafe(r))
	}
	if r.Intn(2) == 0 {
		return list(a...)
	}
	return fn("g", a...)
}

func unparen(s string) string {
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		return s[1 : len(s)-1]
	}
	return s
}
