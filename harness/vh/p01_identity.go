package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// staleHash finds a node whose hash is not that of a fresh term of the same
// structure. It must not disturb the node's caches, so it asks the fresh term.
func staleHash(e expreduceapi.Ex) string {
	t := fromEx(e)
	if e.Hash() != t.Ex().Hash() {
		// Descend to the innermost culprit.
		switch v := e.(type) {
		case *atoms.Expression:
			for _, p := range v.GetParts() {
				if s := staleHash(p); s != "" {
					return s
				}
			}
		case *atoms.Complex:
			if s := staleHash(v.Re); s != "" {
				return s
			}
			if s := staleHash(v.Im); s != "" {
				return s
			}
		}
		return fmt.Sprintf("the hash of %s is not that of a term of this structure", t.Src())
	}
	if v, ok := e.(*atoms.Expression); ok {
		for _, p := range v.GetParts() {
			if s := staleHash(p); s != "" {
				return s
			}
		}
	}
	return ""
}

// sameModel decides identity from the statement: structure, and one unit in
// the last place for two reals.
func sameModel(a, b *T) bool {
	if a.K == kFlt && b.K == kFlt {
		x, _ := a.F.Float64()
		y, _ := b.F.Float64()
		if x == y {
			return true
		}
		return math.Nextafter(x, y) == y
	}
	return same(a, b)
}

func heavyMutation(e expreduceapi.Ex) {
	switch v := e.(type) {
	case *atoms.Integer:
		v.Val.Add(v.Val, big.NewInt(1))
	case *atoms.Rational:
		v.Num.Add(v.Num, v.Den)
		v.Den.Add(v.Den, big.NewInt(1))
	case *atoms.Flt:
		v.Val.Add(v.Val, big.NewFloat(1))
	case *atoms.Complex:
		heavyMutation(v.Re)
		heavyMutation(v.Im)
	case *atoms.String:
		v.Val += "m"
	case *atoms.Symbol:
		v.Name += "m"
	case *atoms.Expression:
		for _, p := range v.GetParts() {
			heavyMutation(p)
		}
		v.AppendEx(atoms.NewInt(99))
		v.GetParts()[0] = atoms.NewSymbol("Global`mut")
		v.ClearHashes()
	}
}

func init() {
	register("P01", "random terms and one-place mutants built through the term API (hash, SameQ, Copy, DeepCopy, ShallowCopy, in-place edits, swaps) and through a session (SameQ/UnsameQ on held and evaluated terms; every result of random evaluation is re-hashed from its structure); distinct = distinct terms compared", func(c *Ctx) {
		c.Batch("api", c.N(400, 12), func(b *B) {
			for i := 0; i < 400; i++ {
				t := genTerm(b.R, 1+b.R.Intn(4))
				b.Casef("%s", t.Src())
				e, e2 := t.Ex(), t.Ex()
				if !sameModel(fromEx(e), t) {
					b.Fail("build", "a term built from its parts reads back as %s", fromEx(e).Src())
				}
				if b.R.Intn(2) == 0 {
					e.Hash()
				}
				if e.Hash() != e2.Hash() || !atoms.IsSameQ(e, e2) || !atoms.IsSameQ(e2, e) {
					b.Fail("same-not-same", "two terms of this structure are not the same")
				}
				if e.Hash() != e.Hash() {
					b.Fail("hash-unstable", "the hash of one term changes")
				}
				for k := 0; k < 3; k++ {
					m := mutate(b.R, t)
					me := m.Ex()
					if got, want := atoms.IsSameQ(e, me), sameModel(t, m); got != want {
						b.Fail("different-same", "SameQ with %s is %v", m.Src(), got)
					}
					if got := atoms.IsSameQ(me, e); got != sameModel(t, m) {
						b.Fail("different-same", "SameQ of %s with it is %v", m.Src(), got)
					}
					if (e.Hash() == me.Hash()) != same(t, m) {
						b.Fail("hash-collision", "the same hash as %s", m.Src())
					}
					b.Count("different_pairs", 1)
				}
				b.Seen(t.Key())
				// Copies, with and without a cached hash.
				fresh := t.Ex()
				if b.R.Intn(2) == 0 {
					fresh.Hash()
				}
				copies := map[string]expreduceapi.Ex{"Copy": fresh.Copy(), "DeepCopy": fresh.DeepCopy()}
				if v, ok := fresh.(*atoms.Expression); ok {
					copies["ShallowCopy"] = atoms.ShallowCopy(v)
				}
				for n, cp := range copies {
					if !same(fromEx(cp), t) || cp.Hash() != e.Hash() || !atoms.IsSameQ(cp, fresh) {
						b.Fail("copy-differs", "%s gives %s", n, fromEx(cp).Src())
					}
					if cp.NeedsEval() != fresh.NeedsEval() {
						b.Fail("copy-state", "%s changes whether the term needs evaluation", n)
					}
				}
				// An edit of a copy at its own level stays in the copy.
				if v, ok := fresh.(*atoms.Expression); ok && len(v.GetParts()) > 0 {
					for _, cp := range copies {
						ce := cp.(*atoms.Expression)
						ce.GetParts()[0] = atoms.NewSymbol("Global`edited")
						ce.AppendEx(atoms.NewInt(5))
						ce.ClearHashes()
						want := ex(append(append([]*T{sym("edited")}, t.A[1:]...), in(5))...)
						if cp.Hash() != want.Ex().Hash() || !same(fromEx(cp), want) {
							b.Fail("edit-hash", "an edited copy with cleared hashes is %s but does not hash like it", fromEx(cp).Src())
						}
					}
					if !same(fromEx(fresh), t) || fresh.Hash() != e.Hash() {
						b.Fail("copy-aliases", "editing copies changed the original to %s", fromEx(fresh).Src())
					}
				}
				d := fresh.DeepCopy()
				heavyMutation(d)
				if !same(fromEx(fresh), t) || fresh.Hash() != e.Hash() || staleHash(fresh) != "" {
					b.Fail("deepcopy-aliases", "mutating a deep copy changed the original to %s", fromEx(fresh).Src())
				}
				// Head and symbol queries follow the structure.
				checkQueries(b, e, t)
			}
		})
		c.Batch("swap", c.N(8, 20), func(b *B) {
			for i := 0; i < 200; i++ {
				t := fn("f", genTerm(b.R, 2), genTerm(b.R, 2), genTerm(b.R, 2), genTerm(b.R, 2))
				b.Casef("%s", t.Src())
				e := t.Ex().(*atoms.Expression)
				x, y := b.R.Intn(4), b.R.Intn(4)
				e.Swap(x, y)
				w := t.clone()
				w.A[x+1], w.A[y+1] = w.A[y+1], w.A[x+1]
				if !same(fromEx(e), w) || e.Len() != 4 || e.Hash() != w.Ex().Hash() {
					b.Fail("swap", "Swap(%d,%d) gives %s", x, y, fromEx(e).Src())
				}
				e2 := t.Ex().(*atoms.Expression)
				e2.AppendExArray(w.Ex().(*atoms.Expression).GetParts()[1:])
				w2 := ex(append(append([]*T{}, t.A...), w.A[1:]...)...)
				if !same(fromEx(e2), w2) || e2.Hash() != w2.Ex().Hash() {
					b.Fail("append", "AppendExArray gives %s", fromEx(e2).Src())
				}
				e2.SetParts(t.Ex().(*atoms.Expression).GetParts())
				e2.ClearHashes()
				if !same(fromEx(e2), t) || e2.Hash() != t.Ex().Hash() || !same(fromEx(e2.GetPart(2)), t.A[2]) {
					b.Fail("setparts", "SetParts gives %s", fromEx(e2).Src())
				}
				b.Seen(t.Key())
			}
		})
		c.Batch("ulp", c.N(4, 10), func(b *B) {
			for i := 0; i < 3000; i++ {
				x := b.R.NormFloat64() * math.Pow(10, float64(b.R.Intn(20)-10))
				y := x
				k := b.R.Intn(4)
				for j := 0; j < k; j++ {
					y = math.Nextafter(y, math.Inf(1))
				}
				b.Casef("%v and the real %d steps up", x, k)
				if got := atoms.IsSameQ(flt(x).Ex(), flt(y).Ex()); got != (k <= 1) {
					b.Fail("ulp", "SameQ gives %v", got)
				}
				if got := atoms.IsSameQ(flt(y).Ex(), flt(x).Ex()); got != (k <= 1) {
					b.Fail("ulp", "SameQ the other way gives %v", got)
				}
				b.Seen(fmt.Sprint(x, k))
			}
		})
		c.Batch("session", c.N(24, 30), func(b *B) {
			s := newSess()
			s.Run("SetAttributes[{p}, HoldAll]")
			for i := 0; i < 150; i++ {
				t := genTerm(b.R, 1+b.R.Intn(3))
				m := t
				if b.R.Intn(2) == 0 {
					m = mutate(b.R, t)
				}
				a1, a2 := sfn("Hold", t), sfn("Hold", m)
				b.Casef("SameQ[%s, %s]", a1.Src(), a2.Src())
				want := same(a1, a2)
				if got := s.EvalT(sfn("SameQ", a1, a2)); !same(got, boolT(want)) {
					b.Fail("SameQ", "gives %s, want %v", got.Src(), want)
				}
				if got := s.EvalT(sfn("UnsameQ", a1, a2)); !same(got, boolT(!want)) {
					b.Fail("UnsameQ", "UnsameQ gives %s, want %v", got.Src(), !want)
				}
				three := []*T{a1, a2, a1}
				if b.R.Intn(2) == 0 {
					three = []*T{a1, a1, a2}
				}
				if got := s.EvalT(sfn("SameQ", three...)); !same(got, boolT(want)) {
					b.Fail("SameQ3", "SameQ of three gives %s, want %v", got.Src(), want)
				}
				b.Seen(a1.Key() + a2.Key())
			}
		})
		c.Batch("rehash", c.N(96, 10), func(b *B) {
			s := newSess()
			ops := []string{"Plus", "Times", "Power", "List", "Map", "Sort", "Apply", "Join", "Append", "Prepend", "Flatten", "Reverse", "Part", "Length", "Union", "ReplaceAll", "Table", "Expand", "Total", "Max", "Min", "Equal", "Less", "Abs", "Mod", "Factorial", "GCD", "Round", "Re", "Im", "Conjugate", "Numerator", "Denominator", "Together", "Cases", "Select", "First", "Last", "Most", "Rest", "Fold", "Nest", "N", "Sqrt", "Coefficient", "D", "Variables", "Thread", "Distribute", "Transpose", "Dot", "Inverse", "Det"}
			for i := 0; i < 150; i++ {
				// Values that several definitions share, then arithmetic on them.
				n := 1 + b.R.Intn(3)
				s.EvalT(sfn("Set", sym("v1"), sfn("Plus", genSmallNum(b.R), genAtom2(b.R))))
				s.EvalT(sfn("Set", sym("v2"), genSmallNum(b.R)))
				s.EvalT(sfn("Set", sym("v3"), list(sym("v1"), sym("v2"), genSmallNum(b.R))))
				args := []*T{}
				for k := 0; k < n; k++ {
					switch b.R.Intn(4) {
					case 0:
						args = append(args, sym(pick(b.R, "v1", "v2", "v3")))
					case 1:
						args = append(args, list(genSmallNum(b.R), sym("v2"), genAtom2(b.R)))
					case 2:
						args = append(args, sfn(pick(b.R, "Plus", "Times"), genSmallNum(b.R), sym("v1"), genAtom2(b.R)))
					default:
						args = append(args, genSmallNum(b.R))
					}
				}
				op := ops[b.R.Intn(len(ops))]
				if op == "Factorial" || op == "Power" || op == "Nest" || op == "Table" {
					args = []*T{sym("v2"), in(int64(b.R.Intn(4)))}
					if op == "Factorial" {
						args = []*T{in(int64(b.R.Intn(12)))}
					}
				}
				if (op == "Max" || op == "Min") && n > 1 {
					args = []*T{genSmallNum(b.R), sym("v2")}
				}
				call := sfn(op, args...)
				b.Casef("v1=%s; v2=%s; %s", s.Run("v1").Src(), s.Run("v2").Src(), call.Src())
				before := list(s.Run("v1"), s.Run("v2"), s.Run("v3"))
				var res expreduceapi.Ex
				in := call.Ex()
				if p := guard(func() { res = s.es.Eval(in) }); p != nil {
					s = newSess()
					continue
				}
				if w := staleHash(res); w != "" {
					b.Fail("stale-result", "%s (result %s)", w, fromEx(res).Src())
				}
				for _, v := range []string{"Global`v1", "Global`v2", "Global`v3"} {
					d, ok := s.es.GetDefined(v)
					if !ok {
						continue
					}
					for _, dv := range d.Downvalues {
						if w := staleHash(dv.Rule); w != "" {
							b.Fail("stale-definition", "in the definition of %s: %s", v, w)
						}
					}
				}
				_ = before
				b.Seen(call.Key())
			}
		})
	})
}

func genAtom2(r interface{ Intn(int) int }) *T {
	return sym([]string{"a", "b", "x", "y"}[r.Intn(4)])
}

func checkQueries(b *B, e expreduceapi.Ex, t *T) {
	numeric := t.K == kInt || t.K == kRat || t.K == kFlt || t.K == kCplx
	if atoms.NumberQ(e) != numeric {
		b.Fail("NumberQ", "NumberQ gives %v", !numeric)
	}
	for _, n := range []string{"Global`a", "System`List", "Global`f"} {
		want := containsSym(t, n)
		if got := atoms.ContainsSymbol(e, n); got != want {
			b.Fail("ContainsSymbol", "ContainsSymbol %s gives %v", n, got)
		}
	}
	for _, n := range []string{"System`List", "Global`f", "System`Plus"} {
		want := t.K == kExpr && t.A[0].K == kSym && t.A[0].S == n
		got, ok := atoms.HeadAssertion(e, n)
		if ok != want || (ok && got != e) {
			b.Fail("HeadAssertion", "HeadAssertion %s gives %v", n, ok)
		}
		wantOp := t.K == kExpr && t.A[0].K == kExpr && t.A[0].A[0].K == kSym && t.A[0].A[0].S == n
		full, head, ok := atoms.OperatorAssertion(e, n)
		if ok != wantOp || (ok && (full != e || !same(fromEx(head), t.A[0]))) {
			b.Fail("OperatorAssertion", "OperatorAssertion %s gives %v", n, ok)
		}
	}
	if v, ok := e.(*atoms.Expression); ok {
		want := ""
		if t.A[0].K == kSym {
			want = t.A[0].S
		}
		if v.HeadStr() != want {
			b.Fail("HeadStr", "HeadStr gives %q", v.HeadStr())
		}
	}
}

func containsSym(t *T, n string) bool {
	if t.K == kSym {
		return t.S == n
	}
	for _, a := range t.A {
		if t.K == kExpr && containsSym(a, n) {
			return true
		}
	}
	return false
}
