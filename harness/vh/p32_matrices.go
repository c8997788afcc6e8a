package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
)

// dimsOf is the shape of a term: its length, and after it what the shapes of
// all its parts begin with when all have its head.
func dimsOf(t *T) []int {
	if t.K != kExpr {
		return nil
	}
	ds := []int{len(t.args())}
	var shared []int
	for i, a := range t.args() {
		if a.K != kExpr || !same(a.A[0], t.A[0]) {
			return ds
		}
		d := dimsOf(a)
		if i == 0 {
			shared = d
			continue
		}
		n := 0
		for n < len(shared) && n < len(d) && shared[n] == d[n] {
			n++
		}
		shared = shared[:n]
	}
	return append(ds, shared...)
}

func isVector(t *T) bool {
	if !t.hasHead("List") {
		return false
	}
	for _, a := range t.args() {
		if a.hasHead("List") {
			return false
		}
	}
	return true
}

func isMatrix(t *T) bool {
	if !t.hasHead("List") || len(t.args()) == 0 {
		return false
	}
	for _, a := range t.args() {
		if !isVector(a) || len(a.args()) != len(t.args()[0].args()) {
			return false
		}
	}
	return true
}

func rowsOf(t *T) (m [][]*T) {
	for _, r := range t.args() {
		m = append(m, r.args())
	}
	return
}

func matT(m [][]*T) *T {
	var rows []*T
	for _, r := range m {
		rows = append(rows, list(r...))
	}
	return list(rows...)
}

type matGen struct {
	r    *rand.Rand
	kind int // 0 integers, 1 rationals, 2 complex, 3 polynomials, 4 fractions, 5 machine reals
}

func (g matGen) elem() *T {
	r := g.r
	n := func() *T { return in(int64(r.Intn(9) - 4)) }
	switch g.kind {
	case 0:
		if r.Intn(8) == 0 {
			return bigT(randBig(r))
		}
		return n()
	case 1:
		if r.Intn(3) == 0 {
			return n()
		}
		return ratT(randSmallRat(r))
	case 2:
		switch r.Intn(3) {
		case 0:
			return n()
		case 1:
			return ratT(randSmallRat(r))
		}
		return cplx(in(int64(r.Intn(5)-2)), pickT(r, []*T{in(1), in(-2), rat(1, 2), rat(-3, 4)}))
	case 3:
		if r.Intn(3) == 0 {
			return n()
		}
		return polyGen{r}.flat(3, 1, 1+r.Intn(2)).T()
	case 4:
		switch r.Intn(4) {
		case 0:
			return n()
		case 1:
			return sym(polyVars[r.Intn(3)])
		}
		return sfn("Times", n(), sfn("Power", sfn("Plus", sym(polyVars[r.Intn(3)]), in(int64(1+r.Intn(3)))), in(-1)))
	}
	if r.Intn(3) == 0 {
		return n()
	}
	return flt(float64(r.Intn(41)-20) / 4)
}

func (g matGen) vector(n int) *T {
	var a []*T
	for ; n > 0; n-- {
		a = append(a, g.elem())
	}
	return list(a...)
}

func (g matGen) matrix(h, w int) *T {
	var a []*T
	for ; h > 0; h-- {
		a = append(a, g.vector(w))
	}
	return list(a...)
}

// matPoints are exact points to compare rational functions at.
func matPoints(r *rand.Rand) (envs []map[string]cq) {
	for i := 0; i < 2; i++ {
		e := map[string]cq{}
		for _, v := range polyVars {
			e["Global`"+v] = cqRat(big.NewRat(int64(r.Intn(2000)+37), int64(r.Intn(90)+11)))
		}
		envs = append(envs, e)
	}
	return
}

// matValue is the value of a matrix of terms, with machine reals exact.
func matValue(m [][]*T, env map[string]cq) (out [][]cq, ok bool) {
	for _, r := range m {
		var row []cq
		for _, e := range r {
			v, ok := exactEval(mapT(e, func(t *T) *T {
				if t.K == kFlt {
					f, _ := t.F.Float64()
					return ratT(new(big.Rat).SetFloat64(f))
				}
				return t
			}, ""), env)
			if !ok {
				return nil, false
			}
			row = append(row, v)
		}
		out = append(out, row)
	}
	return out, true
}

func matMul(a, b [][]cq) (out [][]cq) {
	for _, r := range a {
		row := []cq{}
		for j := range b[0] {
			s := cqInt(0)
			for k := range b {
				s = s.add(r[k].mul(b[k][j]))
			}
			row = append(row, s)
		}
		out = append(out, row)
	}
	return
}

func matDet(m [][]cq) cq {
	if len(m) == 1 {
		return m[0][0]
	}
	d := cqInt(0)
	for j := range m {
		var minor [][]cq
		for _, r := range m[1:] {
			minor = append(minor, append(append([]cq{}, r[:j]...), r[j+1:]...))
		}
		t := m[0][j].mul(matDet(minor))
		if j%2 == 1 {
			t = cqInt(0).sub(t)
		}
		d = d.add(t)
	}
	return d
}

func cqSame(a, b [][]cq) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows, expected %d", len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("row %d of length %d, expected %d", i+1, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			if !a[i][j].sub(b[i][j]).isZero() {
				return fmt.Sprintf("element (%d,%d) has the value %s, expected %s", i+1, j+1, a[i][j].T().Src(), b[i][j].T().Src())
			}
		}
	}
	return ""
}

func cqNear(a, b [][]cq) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows, expected %d", len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("row %d of length %d, expected %d", i+1, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			x, _ := a[i][j].re.Float64()
			y, _ := b[i][j].re.Float64()
			if math.Abs(x-y) > 1e-8*(1+math.Abs(y)) {
				return fmt.Sprintf("element (%d,%d) is %g, expected %g", i+1, j+1, x, y)
			}
		}
	}
	return ""
}

func init() {
	register("P32", "random arrays, vectors and matrices of exact numbers, polynomials, fractions and machine reals, with the shape rules and exact matrix arithmetic of the harness as the reference; distinct = distinct calls", func(c *Ctx) {
		sess := func() *Sess { return keptSess("p32", "") }
		call := func(b *B, t *T) (*T, string) {
			src := t.Src()
			b.Case(src)
			b.Seen(src)
			return sess().EvalT(t), src
		}
		c.Batch("shapes", c.N(40, 30), func(b *B) {
			lg := newListGen(b.R)
			r := b.R
			var arr func(h *T, ds []int) *T
			arr = func(h *T, ds []int) *T {
				if len(ds) == 0 {
					if r.Intn(12) == 0 {
						return lg.elem(2)
					}
					return lg.atom()
				}
				a := []*T{h}
				n := ds[0]
				if r.Intn(40) == 0 {
					n = r.Intn(4)
				}
				for ; n > 0; n-- {
					d := ds[1:]
					if r.Intn(30) == 0 && len(d) > 0 {
						d = d[1:]
					} else if r.Intn(30) == 0 {
						d = append(append([]int{}, d...), r.Intn(3))
					}
					hh := h
					if r.Intn(60) == 0 {
						hh = lg.head()
					}
					a = append(a, arr(hh, d))
				}
				return ex(a...)
			}
			for i := 0; i < 60; i++ {
				h := sys("List")
				if r.Intn(4) == 0 {
					h = pickT(r, []*T{sym("f"), sym("g"), sys("Hold")})
				}
				ds := []int{}
				for n := r.Intn(5); n > 0; n-- {
					ds = append(ds, []int{1, 2, 3, 2, 1, 0, 4}[r.Intn(7)])
				}
				t := arr(h, ds)
				if t.size() > 150 || t.hasHead("Hold") && h.S != "System`Hold" {
					continue
				}
				var want []*T
				for _, d := range dimsOf(t) {
					want = append(want, in(int64(d)))
				}
				check := func(key string, call1, want *T) {
					got, src := call(b, call1)
					if !same(got, want) {
						b.Fail(key, "%s gives %s, expected %s", src, clip(got.Src(), 300), clip(want.Src(), 300))
					}
				}
				check("Dimensions", sfn("Dimensions", t), list(want...))
				check("VectorQ", sfn("VectorQ", t), boolT(isVector(t)))
				check("MatrixQ", sfn("MatrixQ", t), boolT(isMatrix(t)))
				tr := sfn("Transpose", t)
				if d := dimsOf(t); t.hasHead("List") && len(d) >= 2 {
					m := make([][]*T, d[1])
					for _, row := range rowsOf(t) {
						for j, e := range row {
							m[j] = append(m[j], e)
						}
					}
					check("Transpose", tr, matT(m))
					if d[1] > 0 {
						check("Transpose twice", sfn("Transpose", tr), t)
					}
				} else {
					check("Transpose of no matrix", tr, tr)
				}
				b.Count("shapes", 1)
			}
		})
		c.Batch("dot", c.N(40, 30), func(b *B) {
			r := b.R
			for i := 0; i < 30; i++ {
				g := matGen{r, r.Intn(5)}
				n := func() int { return []int{1, 2, 3, 2, 3, 4, 1, 5}[r.Intn(8)] }
				// A vector is a matrix of one row on the left and of one column on the
				// right.
				type op struct {
					t   *T
					m   [][]*T
					vec bool
				}
				h, w, k := n(), n(), n()
				left := func(h, w int) op {
					if r.Intn(3) == 0 {
						v := g.vector(w)
						return op{v, [][]*T{v.args()}, true}
					}
					m := g.matrix(h, w)
					return op{m, rowsOf(m), false}
				}
				right := func(h, w int) op {
					if r.Intn(2) == 0 {
						v := g.vector(h)
						m := [][]*T{}
						for _, e := range v.args() {
							m = append(m, []*T{e})
						}
						return op{v, m, true}
					}
					m := g.matrix(h, w)
					return op{m, rowsOf(m), false}
				}
				x := left(h, w)
				fits := r.Intn(5) > 0
				w2 := w
				if !fits {
					w2 = n()
					fits = w2 == w
				}
				y := right(w2, k)
				t := sfn("Dot", x.t, y.t)
				third := false
				var z op
				if fits && r.Intn(4) == 0 && !y.vec {
					z = right(k, n())
					third = true
					switch r.Intn(3) {
					case 0:
						t = sfn("Dot", x.t, y.t, z.t)
					case 1:
						t = sfn("Dot", sfn("Dot", x.t, y.t), z.t)
					case 2:
						t = sfn("Dot", x.t, sfn("Dot", y.t, z.t))
					}
				}
				got, src := call(b, t)
				if !fits {
					want, _ := call(b, sfn("Dot", sess().EvalT(x.t), y.t))
					if !got.hasHead("Dot") || !same(got, want) {
						b.Fail("sizes", "%s gives %s, though the sizes do not fit", src, clip(got.Src(), 300))
					}
					continue
				}
				if got.hasHead("Dot") {
					// Only a vector on the left of a matrix and products of three are left alone.
					if x.vec && !y.vec || third {
						b.Count("left alone", 1)
						continue
					}
					b.Fail("unevaluated", "%s stays", src)
					continue
				}
				last := y
				if third {
					last = z
				}
				var gm [][]*T
				switch {
				case x.vec && last.vec:
					gm = [][]*T{{got}}
				case x.vec:
					gm = [][]*T{got.args()}
				case last.vec:
					for _, e := range got.args() {
						gm = append(gm, []*T{e})
					}
				default:
					gm = rowsOf(got)
				}
				for _, env := range matPoints(r) {
					a, ok1 := matValue(x.m, env)
					bb, ok2 := matValue(y.m, env)
					gv, ok3 := matValue(gm, env)
					if !ok1 || !ok2 {
						continue
					}
					want := matMul(a, bb)
					if third {
						cc, _ := matValue(z.m, env)
						want = matMul(want, cc)
					}
					bad := "an element that is no number, sum, product or power"
					if ok3 {
						bad = cqSame(gv, want)
					}
					if bad != "" {
						b.Fail("dot", "%s gives %s: %s", src, clip(got.Src(), 300), bad)
						break
					}
				}
				b.Count("products", 1)
			}
			// Corner cases: nothing at all, symbols.
			for _, p := range [][2]string{{"Dot[{}, {}]", "0"}, {"Dot[{{}}, {}]", "{0}"}, {"Dot[{{}, {}}, {}]", "{0, 0}"}, {"Dot[{{}}, {{}}]", "Dot[{{}}, {{}}]"}, {"Dot[u, v]", "Dot[u, v]"}, {"Dot[u, Dot[v, w]]", "Dot[u, v, w]"},
				{"Dot[u, {1, 2}]", "Dot[u, {1, 2}]"}, {"Dot[{{1, 2}, {3}}, {1, 2}]", "Dot[{{1, 2}, {3}}, {1, 2}]"}, {"Dot[{1, 2}]", "{1, 2}"}, {"Dot[{{1, {2}}, {3, 4}}, {1, 2}]", "Dot[{{1, {2}}, {3, 4}}, {1, 2}]"}} {
				got, want := sess().EvalT(sess().Parse(p[0])), sess().Parse(p[1])
				b.Case(p[0])
				if !same(got, want) {
					b.Fail("corner", "%s gives %s, expected %s", p[0], got.Src(), p[1])
				}
			}
		})
		c.Batch("inverse", c.N(40, 30), func(b *B) {
			r := b.R
			for i := 0; i < 12; i++ {
				g := matGen{r, r.Intn(6)}
				n := 1 + r.Intn(3)
				m := g.matrix(n, n)
				ms := rowsOf(m)
				if n > 1 && r.Intn(3) == 0 {
					// Often singular: a row twice another, or a sum of rows; else sparse.
					switch r.Intn(3) {
					case 0:
						for j := range ms[0] {
							ms[n-1][j] = sess().EvalT(sfn("Times", in(2), ms[0][j]))
						}
					case 1:
						for _, row := range ms {
							row[n-1] = sess().EvalT(sfn("Plus", row[0], sfn("Times", in(-1), row[n/2])))
						}
					case 2:
						for _, row := range ms {
							for j := range row {
								if r.Intn(2) == 0 {
									row[j] = in(0)
								}
							}
						}
					}
					m = matT(ms)
				}
				t := sfn("Inverse", m)
				got, src := call(b, t)
				for _, env := range matPoints(r) {
					a, ok := matValue(ms, env)
					if !ok {
						break
					}
					if matDet(a).isZero() {
						if g.kind != 3 && g.kind != 4 && !got.hasHead("Inverse") {
							b.Fail("singular", "%s gives %s, though the matrix is singular", src, clip(got.Src(), 300))
						}
						b.Count("singular", 1)
						break
					}
					if got.hasHead("Inverse") || !isMatrix(got) {
						b.Fail("inverse", "%s gives %s", src, clip(got.Src(), 300))
						break
					}
					v, ok := matValue(rowsOf(got), env)
					bad := "an element that is no number, sum, product or power"
					if ok && len(v) == n && len(v[0]) == n {
						var one [][]cq
						for i := 0; i < n; i++ {
							row := make([]cq, n)
							for j := range row {
								row[j] = cqInt(0)
							}
							row[i] = cqInt(1)
							one = append(one, row)
						}
						cmp := cqSame
						if g.kind == 5 {
							cmp = cqNear
						}
						if bad = cmp(matMul(a, v), one); bad == "" {
							bad = cmp(matMul(v, a), one)
						}
						if bad != "" {
							bad = "of the product with the matrix, " + bad
						}
					}
					if bad != "" {
						b.Fail("inverse", "%s gives %s: %s", src, clip(got.Src(), 300), bad)
						break
					}
					b.Count("inverses", 1)
				}
			}
			g := matGen{r, r.Intn(3)}
			for _, m := range []*T{g.matrix(2, 3), g.matrix(1, 2), g.vector(2), sym("u"), list(), list(list()), list(list(in(1), in(2)), list(in(3)))} {
				t := sfn("Inverse", m)
				if got, src := call(b, t); !same(got, sfn("Inverse", sess().EvalT(m))) {
					b.Fail("no square matrix", "%s gives %s", src, clip(got.Src(), 300))
				}
			}
		})
		c.Batch("vectors", c.N(30, 30), func(b *B) {
			r := b.R
			for i := 0; i < 20; i++ {
				g := matGen{r, r.Intn(5)}
				var t, sum *T
				n := 1 + r.Intn(6)
				if r.Intn(3) == 0 {
					t = g.matrix(n, 1+r.Intn(3))
				} else {
					t = g.vector(n)
				}
				sum = sfn("Times", ratT(big.NewRat(1, int64(n))), ex(append([]*T{sys("Plus")}, t.args()...)...))
				got, src := call(b, sfn("Mean", t))
				want := sess().EvalT(sum)
				m, wm := [][]*T{{got}}, [][]*T{{want}}
				if isMatrix(t) {
					m, wm = [][]*T{got.args()}, [][]*T{want.args()}
				}
				for _, env := range matPoints(r) {
					v, ok := matValue(m, env)
					w, ok2 := matValue(wm, env)
					if !ok2 {
						continue
					}
					bad := "something that is no number, sum, product or power"
					if ok {
						bad = cqSame(v, w)
					}
					if bad != "" {
						b.Fail("mean", "%s gives %s: %s", src, clip(got.Src(), 300), bad)
						break
					}
				}
				p := polyGen{r}.flat(3, 3, 1+r.Intn(5))
				vs := shuffleT(r, []*T{sym("x"), sym("y"), sym("z")})[:1+r.Intn(3)]
				got, src = call(b, sfn("Grad", p.T(), list(vs...)))
				if !got.hasHead("List") || len(got.args()) != len(vs) {
					b.Fail("grad", "%s gives %s", src, clip(got.Src(), 300))
					continue
				}
				for j, v := range vs {
					d, ok := polyOf(got.args()[j])
					if w := p.diff(strings.Index("xyz", v.S[len(v.S)-1:])); !ok || !d.eq(w) {
						b.Fail("grad", "%s gives %s, with %s for %s, expected %s", src, clip(got.Src(), 300), got.args()[j].Src(), v.Src(), w)
					}
				}
				b.Count("vectors", 1)
			}
			// Rotations, in the plane and about the axes.
			for i := 0; i < 8; i++ {
				angle := pickT(r, []*T{sym("t"), sfn("Times", rat(1, 2), sym("t")), sfn("Plus", sym("t"), in(1)), sfn("Times", in(-2), sym("t")), in(0), sys("Pi"), sfn("Times", rat(1, int64(2+r.Intn(5))), sys("Pi")), flt(float64(r.Intn(60)-30) / 8), in(int64(r.Intn(9) - 4))})
				size := []*T{in(1), in(int64(1 + r.Intn(5))), in(int64(-1 - r.Intn(5))), rat(-3, 2), rat(2, 7), flt(2.5), flt(-0.5)}[r.Intn(7)]
				axis := r.Intn(4)
				call1 := sfn("RotationMatrix", angle)
				if axis < 3 {
					a := []*T{in(0), in(0), in(0)}
					a[axis] = size
					call1 = sfn("RotationMatrix", angle, list(a...))
				}
				got, src := call(b, call1)
				env := map[string]complex128{"Global`t": complex(r.Float64()*6-3, 0)}
				th, _ := numEval(angle, env)
				cs, sn := math.Cos(real(th)), math.Sin(real(th))
				if f, _ := ratOr(size).Float64(); axis < 3 && f < 0 {
					sn = -sn
				}
				want := [][]float64{{cs, -sn}, {sn, cs}}
				switch axis {
				case 0:
					want = [][]float64{{1, 0, 0}, {0, cs, -sn}, {0, sn, cs}}
				case 1:
					want = [][]float64{{cs, 0, sn}, {0, 1, 0}, {-sn, 0, cs}}
				case 2:
					want = [][]float64{{cs, -sn, 0}, {sn, cs, 0}, {0, 0, 1}}
				}
				rows := rowsOf(got)
				bad := !isMatrix(got) || len(rows) != len(want) || len(rows[0]) != len(want)
				for i := 0; i < len(want) && !bad; i++ {
					for j := range want {
						v, ok := numEval(rows[i][j], env)
						bad = bad || !ok || math.Abs(real(v)-want[i][j]) > 1e-9 || math.Abs(imag(v)) > 1e-9
					}
				}
				if bad {
					b.Fail("rotation", "%s gives %s, expected %v at t = %v", src, clip(got.Src(), 400), want, env["Global`t"])
				}
			}
		})
	})
}

func ratOr(t *T) *big.Rat {
	if r := ratOf(t); r != nil {
		return r
	}
	f, _ := t.F.Float64()
	return new(big.Rat).SetFloat64(f)
}
