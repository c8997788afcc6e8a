package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

type kind int

const (
	kSym kind = iota
	kInt
	kRat
	kFlt
	kCplx
	kStr
	kExpr
)

// T is the monitors' own representation of a term; it shares nothing with the
// interpreter's.
type T struct {
	K    kind
	S    string     // symbol (full name) or string
	I    *big.Int   // integer or numerator
	D    *big.Int   // denominator
	F    *big.Float // real
	A    []*T       // head and arguments, or re and im
	keyc string
}

func sym(n string) *T {
	if !strings.Contains(n, "`") {
		n = "Global`" + n
	}
	return &T{K: kSym, S: n}
}
func sys(n string) *T    { return &T{K: kSym, S: "System`" + n} }
func in(i int64) *T      { return &T{K: kInt, I: big.NewInt(i)} }
func bigT(i *big.Int) *T { return &T{K: kInt, I: new(big.Int).Set(i)} }
func str(s string) *T    { return &T{K: kStr, S: s} }
func ex(a ...*T) *T      { return &T{K: kExpr, A: a} }
func fn(h string, a ...*T) *T {
	return &T{K: kExpr, A: append([]*T{sym(h)}, a...)}
}
func sfn(h string, a ...*T) *T {
	return &T{K: kExpr, A: append([]*T{sys(h)}, a...)}
}
func list(a ...*T) *T { return sfn("List", a...) }
func ratT(r *big.Rat) *T {
	if r.IsInt() {
		return bigT(r.Num())
	}
	return &T{K: kRat, I: new(big.Int).Set(r.Num()), D: new(big.Int).Set(r.Denom())}
}
func rat(n, d int64) *T { return ratT(big.NewRat(n, d)) }
func flt(f float64) *T  { return &T{K: kFlt, F: big.NewFloat(f)} }
func cplx(re, im *T) *T { return &T{K: kCplx, A: []*T{re, im}} }

func boolT(b bool) *T {
	if b {
		return sys("True")
	}
	return sys("False")
}

func (t *T) isAtom() bool { return t.K != kExpr }
func (t *T) head() *T {
	switch t.K {
	case kExpr:
		return t.A[0]
	case kSym:
		return sys("Symbol")
	case kInt:
		return sys("Integer")
	case kRat:
		return sys("Rational")
	case kFlt:
		return sys("Real")
	case kCplx:
		return sys("Complex")
	}
	return sys("String")
}
func (t *T) args() []*T {
	if t.K != kExpr {
		return nil
	}
	return t.A[1:]
}

// hasHead reports whether t is an expression with head System`name.
func (t *T) hasHead(name string) bool {
	return t.K == kExpr && len(t.A) > 0 && t.A[0].K == kSym && t.A[0].S == "System`"+name
}

// isHead is hasHead with a full name.
func (t *T) isHead(name string) bool {
	return t.K == kExpr && len(t.A) > 0 && t.A[0].K == kSym && t.A[0].S == name
}

// Key is an injective text for the term: structural identity.
func (t *T) Key() string {
	if t.keyc == "" {
		var sb strings.Builder
		t.key(&sb)
		t.keyc = sb.String()
	}
	return t.keyc
}

func (t *T) key(sb *strings.Builder) {
	switch t.K {
	case kSym:
		sb.WriteString(t.S)
	case kInt:
		sb.WriteString(t.I.String())
	case kRat:
		sb.WriteString(t.I.String() + "/" + t.D.String())
	case kFlt:
		sb.WriteString("r" + t.F.Text('p', 0))
	case kStr:
		fmt.Fprintf(sb, "%q", t.S)
	case kCplx:
		sb.WriteString("C(")
		t.A[0].key(sb)
		sb.WriteString(",")
		t.A[1].key(sb)
		sb.WriteString(")")
	case kExpr:
		sb.WriteString("(")
		for i, a := range t.A {
			if i > 0 {
				sb.WriteString(" ")
			}
			a.key(sb)
		}
		sb.WriteString(")")
	}
}

func same(a, b *T) bool { return a.Key() == b.Key() }

func shortSym(s string) string {
	s = strings.TrimPrefix(s, "Global`")
	return strings.TrimPrefix(s, "System`")
}

func escStr(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	return "\"" + strings.ReplaceAll(s, "\"", "\\\"") + "\""
}

// Src writes the term in the language's bracket syntax.
func (t *T) Src() string {
	var sb strings.Builder
	t.src(&sb)
	return sb.String()
}

func fltSrc(f *big.Float) string {
	s := f.Text('f', -1)
	if v, acc := f.Float64(); acc == big.Exact && f.Prec() <= 53 { // Text is wrong at powers of two
		s = strconv.FormatFloat(v, 'f', -1, 64)
	}
	if !strings.Contains(s, ".") {
		s += "."
	}
	return s
}

func (t *T) src(sb *strings.Builder) {
	switch t.K {
	case kSym:
		sb.WriteString(shortSym(t.S))
	case kInt:
		if t.I.Sign() < 0 {
			sb.WriteString("(" + t.I.String() + ")")
		} else {
			sb.WriteString(t.I.String())
		}
	case kRat:
		sb.WriteString("Rational[" + t.I.String() + ", " + t.D.String() + "]")
	case kFlt:
		if t.F.Sign() < 0 {
			sb.WriteString("(" + fltSrc(t.F) + ")")
		} else {
			sb.WriteString(fltSrc(t.F))
		}
	case kStr:
		sb.WriteString(escStr(t.S))
	case kCplx:
		sb.WriteString("Complex[" + t.A[0].Src() + ", " + t.A[1].Src() + "]")
	case kExpr:
		if t.hasHead("List") {
			sb.WriteString("{")
		} else {
			t.A[0].src(sb)
			sb.WriteString("[")
		}
		for i, a := range t.A[1:] {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.src(sb)
		}
		if t.hasHead("List") {
			sb.WriteString("}")
		} else {
			sb.WriteString("]")
		}
	}
}

func (t *T) String() string { return t.Src() }

// Ex builds the interpreter's representation, sharing nothing.
func (t *T) Ex() expreduceapi.Ex {
	switch t.K {
	case kSym:
		return atoms.NewSymbol(t.S)
	case kInt:
		return atoms.NewInteger(new(big.Int).Set(t.I))
	case kRat:
		return atoms.NewRational(new(big.Int).Set(t.I), new(big.Int).Set(t.D))
	case kFlt:
		return atoms.NewReal(new(big.Float).Copy(t.F))
	case kStr:
		return atoms.NewString(t.S)
	case kCplx:
		return atoms.NewComplex(t.A[0].Ex(), t.A[1].Ex())
	}
	parts := make([]expreduceapi.Ex, len(t.A))
	for i, a := range t.A {
		parts[i] = a.Ex()
	}
	return atoms.NewExpression(parts)
}

// fromEx takes a deep snapshot of an interpreter term, using only its data.
func fromEx(e expreduceapi.Ex) *T {
	switch v := e.(type) {
	case *atoms.Symbol:
		return &T{K: kSym, S: v.Name}
	case *atoms.Integer:
		return &T{K: kInt, I: new(big.Int).Set(v.Val)}
	case *atoms.Rational:
		return &T{K: kRat, I: new(big.Int).Set(v.Num), D: new(big.Int).Set(v.Den)}
	case *atoms.Flt:
		return &T{K: kFlt, F: new(big.Float).Copy(v.Val)}
	case *atoms.String:
		return &T{K: kStr, S: v.Val}
	case *atoms.Complex:
		return &T{K: kCplx, A: []*T{fromEx(v.Re), fromEx(v.Im)}}
	case expreduceapi.ExpressionInterface:
		ps := v.GetParts()
		out := make([]*T, len(ps))
		for i, p := range ps {
			out[i] = fromEx(p)
		}
		return &T{K: kExpr, A: out}
	case nil:
		return &T{K: kSym, S: "<nil>"}
	}
	return &T{K: kSym, S: fmt.Sprintf("<%T>", e)}
}

// walk visits every node.
func (t *T) walk(f func(*T)) {
	f(t)
	if t.K == kExpr {
		for _, a := range t.A {
			a.walk(f)
		}
	}
}

func (t *T) size() int { n := 0; t.walk(func(*T) { n++ }); return n }

func (t *T) clone() *T {
	c := *t
	c.keyc = ""
	if t.A != nil {
		c.A = make([]*T, len(t.A))
		for i, a := range t.A {
			c.A[i] = a.clone()
		}
	}
	return &c
}

// Random helpers.

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }
func pickT(r *rand.Rand, xs []*T) *T         { return xs[r.Intn(len(xs))] }
func shuffleT(r *rand.Rand, xs []*T) []*T {
	out := append([]*T{}, xs...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func srcs(ts []*T) string {
	out := []string{}
	for _, t := range ts {
		out = append(out, t.Src())
	}
	return strings.Join(out, ", ")
}

// randBig yields integers with an emphasis on edges.
func randBig(r *rand.Rand) *big.Int {
	switch r.Intn(8) {
	case 0, 1, 2:
		return big.NewInt(int64(r.Intn(7)) - 3)
	case 3, 4:
		return big.NewInt(int64(r.Intn(201)) - 100)
	case 5:
		return big.NewInt(r.Int63() - r.Int63())
	case 6:
		x := new(big.Int).Lsh(big.NewInt(1), uint(60+r.Intn(8)))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
		if r.Intn(2) == 0 {
			x.Neg(x)
		}
		return x
	}
	x := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(64+r.Intn(100))))
	if r.Intn(2) == 0 {
		x.Neg(x)
	}
	return x
}
func randSmallRat(r *rand.Rand) *big.Rat {
	return big.NewRat(int64(r.Intn(41)-20), int64(1+r.Intn(12)))
}
func randRat(r *rand.Rand) *big.Rat {
	d := randBig(r)
	for d.Sign() == 0 {
		d = randBig(r)
	}
	return new(big.Rat).SetFrac(randBig(r), d)
}

// clip shortens a text.
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
