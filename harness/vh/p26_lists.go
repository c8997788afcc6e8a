package main

import (
	"fmt"
	"math/big"
)

type listOp struct {
	name string
	f    func(g *listGen) (call, want *T) // want nil: out of the domain
}

var listOps = []listOp{
	{"Length", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 9)
		return sfn("Length", t), in(int64(len(t.args())))
	}},
	{"First", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 6)
		if len(t.A) < 2 {
			return nil, nil
		}
		return sfn("First", t), t.A[1]
	}},
	{"Last", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 6)
		if len(t.A) < 2 {
			return nil, nil
		}
		return sfn("Last", t), t.A[len(t.A)-1]
	}},
	{"Rest", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 6)
		if len(t.A) < 2 {
			return nil, nil
		}
		return sfn("Rest", t), with(t.A[0], t.A[2:]...)
	}},
	{"Part", func(g *listGen) (*T, *T) {
		h := g.head()
		rows := []*T{}
		for n := g.r.Intn(5); n > 0; n-- {
			if g.r.Intn(8) == 0 {
				rows = append(rows, g.elem(2))
			} else {
				rows = append(rows, g.data(g.head(), 4))
			}
		}
		t := with(h, rows...)
		ix, ts := []indexT{}, []*T{t}
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			i := g.index(len(rows))
			if len(ix) > 0 {
				i = g.index(3)
			}
			ix = append(ix, i)
			ts = append(ts, i.t)
		}
		call := sfn("Part", ts...)
		want, ok := partT(t, ix)
		if !ok {
			want = call
		}
		return call, want
	}},
	{"Take", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 7)
		n := len(t.args())
		if n == 0 {
			return nil, nil
		}
		lo := 1 + g.r.Intn(n)
		hi := lo - 1 + g.r.Intn(n-lo+2)
		if g.r.Intn(2) == 0 {
			return sfn("Take", t, in(int64(lo))), with(t.A[0], t.A[1:lo+1]...)
		}
		return sfn("Take", t, list(in(int64(lo)), in(int64(hi)))), with(t.A[0], t.A[lo:hi+1]...)
	}},
	{"Append", func(g *listGen) (*T, *T) {
		t, e := g.data(g.head(), 6), g.elem(2)
		return sfn("Append", t, e), with(t.A[0], append(append([]*T{}, t.args()...), e)...)
	}},
	{"Prepend", func(g *listGen) (*T, *T) {
		t, e := g.data(g.head(), 6), g.elem(2)
		return sfn("Prepend", t, e), with(t.A[0], append([]*T{e}, t.args()...)...)
	}},
	{"Join", func(g *listGen) (*T, *T) {
		h := g.head()
		ts, out := []*T{}, []*T{}
		for n := 1 + g.r.Intn(4); n > 0; n-- {
			t := g.data(h, 4)
			ts = append(ts, t)
			out = append(out, t.args()...)
		}
		return sfn("Join", ts...), with(h, out...)
	}},
	{"Reverse", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 8)
		return sfn("Reverse", t), with(t.A[0], reversed(t.args())...)
	}},
	{"Sort", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 9)
		return sfn("Sort", t), with(t.A[0], sortedT(t.args())...)
	}},
	{"Union", func(g *listGen) (*T, *T) {
		h := g.head()
		ts, out := []*T{}, []*T{}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			t := g.data(h, 7)
			ts = append(ts, t)
			out = append(out, t.args()...)
		}
		return sfn("Union", ts...), with(h, sortedT(dedup(out))...)
	}},
	{"Intersection", func(g *listGen) (*T, *T) {
		h := g.head()
		ts := []*T{}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			ts = append(ts, g.data(h, 9))
		}
		out := []*T{}
		for _, e := range dedup(ts[0].args()) {
			in := true
			for _, t := range ts[1:] {
				in = in && keysOf(t.args())[e.Key()]
			}
			if in {
				out = append(out, e)
			}
		}
		return sfn("Intersection", ts...), with(h, sortedT(out)...)
	}},
	{"Complement", func(g *listGen) (*T, *T) {
		h := g.head()
		ts := []*T{}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			ts = append(ts, g.data(h, 7))
		}
		out := []*T{}
		for _, e := range dedup(ts[0].args()) {
			in := false
			for _, t := range ts[1:] {
				in = in || keysOf(t.args())[e.Key()]
			}
			if !in {
				out = append(out, e)
			}
		}
		return sfn("Complement", ts...), with(h, sortedT(out)...)
	}},
	{"DeleteDuplicates", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 10)
		return sfn("DeleteDuplicates", t), with(t.A[0], dedup(t.args())...)
	}},
	{"Tally", func(g *listGen) (*T, *T) {
		t := g.lists(10)
		return sfn("Tally", t), tallyT(t.args())
	}},
	{"PadRight", func(g *listGen) (*T, *T) {
		t, n, x := g.data(g.head(), 6), g.r.Intn(9), g.elem(1)
		out := append([]*T{}, t.args()...)
		call := sfn("PadRight", t, in(int64(n)), x)
		if g.r.Intn(3) == 0 {
			x = in(0)
			call = sfn("PadRight", t, in(int64(n)))
		}
		for len(out) < n {
			out = append(out, x)
		}
		return call, with(t.A[0], out[:n]...)
	}},
	{"PadLeft", func(g *listGen) (*T, *T) {
		t, n, x := g.data(g.head(), 6), g.r.Intn(9), g.elem(1)
		out := append([]*T{}, t.args()...)
		call := sfn("PadLeft", t, in(int64(n)), x)
		if g.r.Intn(3) == 0 {
			x = in(0)
			call = sfn("PadLeft", t, in(int64(n)))
		}
		for len(out) < n {
			out = append([]*T{x}, out...)
		}
		return call, with(t.A[0], out[len(out)-n:]...)
	}},
	{"Range", func(g *listGen) (*T, *T) {
		num := func() *big.Rat {
			if g.r.Intn(3) == 0 {
				return big.NewRat(int64(g.r.Intn(25)-12), int64(1+g.r.Intn(4)))
			}
			return big.NewRat(int64(g.r.Intn(25)-10), 1)
		}
		lo, hi, st := big.NewRat(1, 1), num(), big.NewRat(1, 1)
		ts := []*T{ratT(hi)}
		if g.r.Intn(3) > 0 {
			lo = num()
			ts = []*T{ratT(lo), ratT(hi)}
			if g.r.Intn(2) == 0 {
				for st = num(); st.Sign() == 0; {
					st = num()
				}
				ts = append(ts, ratT(st))
			}
		}
		out := []*T{}
		for x := lo; x.Cmp(hi)*st.Sign() <= 0; x = new(big.Rat).Add(x, st) {
			out = append(out, ratT(x))
		}
		return sfn("Range", ts...), list(out...)
	}},
	{"ConstantArray", func(g *listGen) (*T, *T) {
		e, n := g.elem(2), g.r.Intn(7)
		out := []*T{}
		for i := 0; i < n; i++ {
			out = append(out, e)
		}
		return sfn("ConstantArray", e, in(int64(n))), list(out...)
	}},
	{"Array", func(g *listGen) (*T, *T) {
		if g.r.Intn(8) == 0 {
			call := sfn("Array", sym("h"), pickT(g.r, []*T{sym("a"), rat(3, 2), sfn("List", in(2), sym("a"))}))
			return call, call
		}
		n := g.r.Intn(8)
		out := []*T{}
		for i := 1; i <= n; i++ {
			out = append(out, fn("h", in(int64(i))))
		}
		return sfn("Array", sym("h"), in(int64(n))), list(out...)
	}},
	{"Flatten", func(g *listGen) (*T, *T) {
		h := g.head()
		ts := []*T{}
		for n := g.r.Intn(5); n > 0; n-- {
			if g.r.Intn(3) == 0 {
				ts = append(ts, g.elem(3))
			} else {
				ts = append(ts, with(h, g.elem(2), with(h, with(h, g.elem(2)), g.atom())))
			}
		}
		t := with(h, ts...)
		lv := g.r.Intn(6) - 1
		if lv < 0 {
			return sfn("Flatten", t), with(h, flattenT(t, h, lv)...)
		}
		return sfn("Flatten", t, in(int64(lv))), with(h, flattenT(t, h, lv)...)
	}},
	{"Map", func(g *listGen) (*T, *T) {
		t := g.elem(4)
		wrap := func(x *T, _ []int64) *T { return fn("h", x) }
		if g.r.Intn(3) == 0 {
			return sfn("Map", sym("h"), t), lstMapLevels(t, levelSpecT{1, 1, nil}, nil, wrap)
		}
		l := g.level()
		return sfn("Map", sym("h"), t, l.t), lstMapLevels(t, l, nil, wrap)
	}},
	{"MapIndexed", func(g *listGen) (*T, *T) {
		t := g.elem(4)
		wrap := func(x *T, p []int64) *T { return fn("h", x, posT(p)) }
		if g.r.Intn(3) == 0 {
			return sfn("MapIndexed", sym("h"), t), lstMapLevels(t, levelSpecT{1, 1, nil}, nil, wrap)
		}
		l := g.level()
		return sfn("MapIndexed", sym("h"), t, l.t), lstMapLevels(t, l, nil, wrap)
	}},
	{"Apply", func(g *listGen) (*T, *T) {
		t := g.elem(4)
		wrap := func(x *T, _ []int64) *T {
			if x.K != kExpr {
				return x
			}
			return with(sym("h"), x.args()...)
		}
		if g.r.Intn(3) == 0 {
			return sfn("Apply", sym("h"), t), lstMapLevels(t, levelSpecT{0, 0, nil}, nil, wrap)
		}
		l := g.level()
		return sfn("Apply", sym("h"), t, l.t), lstMapLevels(t, l, nil, wrap)
	}},
	{"Count", func(g *listGen) (*T, *T) {
		t, p := g.elem(4), g.patt()
		l := levelSpecT{1, 1, nil}
		call := sfn("Count", t, p)
		if g.r.Intn(3) > 0 {
			l = g.level()
			call = sfn("Count", t, p, l.t)
		}
		n := int64(0)
		lstMapLevels(t, l, nil, func(x *T, _ []int64) *T {
			if s, _ := newRefMatcher().Solutions(x, p, 1<<20); len(s) > 0 {
				n++
			}
			return x
		})
		return call, in(n)
	}},
	{"MemberQ", func(g *listGen) (*T, *T) {
		t, p := g.data(g.head(), 6), g.patt()
		is := false
		for _, x := range t.args() {
			s, _ := newRefMatcher().Solutions(x, p, 1<<20)
			is = is || len(s) > 0
		}
		return sfn("MemberQ", t, p), boolT(is)
	}},
	{"FreeQ", func(g *listGen) (*T, *T) {
		t, p := g.elem(4), g.patt()
		free := true
		var walk func(x *T)
		walk = func(x *T) {
			s, _ := newRefMatcher().Solutions(x, p, 1<<20)
			free = free && len(s) == 0
			if x.K == kExpr {
				for _, a := range x.A {
					walk(a)
				}
			}
		}
		walk(t)
		return sfn("FreeQ", t, p), boolT(free)
	}},
	{"Cases", func(g *listGen) (*T, *T) {
		t, p := g.data(g.head(), 8), g.patt()
		out := []*T{}
		rule := g.r.Intn(2) == 0
		has := false
		p.walk(func(x *T) { has = has || x.hasHead("Pattern") })
		for _, x := range t.args() {
			s, _ := newRefMatcher().Solutions(x, p, 1<<20)
			if len(s) == 0 {
				continue
			}
			if rule && has {
				out = append(out, fn("h", s[0][sym("x").S]))
			} else if rule {
				out = append(out, fn("h", sym("x")))
			} else {
				out = append(out, x)
			}
		}
		if rule {
			p = sfn("Rule", p, fn("h", sym("x")))
		}
		return sfn("Cases", t, p), list(out...)
	}},
	{"DeleteCases", func(g *listGen) (*T, *T) {
		t, p := g.data(g.head(), 8), g.patt()
		out := []*T{}
		for _, x := range t.args() {
			if s, _ := newRefMatcher().Solutions(x, p, 1<<20); len(s) == 0 {
				out = append(out, x)
			}
		}
		return sfn("DeleteCases", t, p), with(t.A[0], out...)
	}},
	{"Select", func(g *listGen) (*T, *T) {
		t, p := g.data(g.head(), 8), g.pred()
		max := 1 << 20
		call := sfn("Select", t, p.t)
		if g.r.Intn(3) == 0 {
			max = g.r.Intn(4)
			call = sfn("Select", t, p.t, in(int64(max)))
		}
		out := []*T{}
		for _, x := range t.args() {
			if len(out) < max && p.f(x) {
				out = append(out, x)
			}
		}
		return call, with(t.A[0], out...)
	}},
	{"Scan", func(g *listGen) (*T, *T) {
		t := g.data(g.head(), 6)
		if len(t.args()) == 0 {
			return nil, nil
		}
		return sfn("Reap", sfn("Scan", sys("Sow"), t)), list(sys("Null"), list(list(t.args()...)))
	}},
	{"FoldList", func(g *listGen) (*T, *T) {
		t, x := g.data(g.head(), 5), g.elem(1)
		h, op := t.A[0], pick(g.r, "FoldList", "Fold")
		call := sfn(op, sym("h"), x, t)
		as := t.args()
		if g.r.Intn(3) == 0 && len(as) > 0 {
			call = sfn(op, sym("h"), t)
			x, as = as[0], as[1:]
		}
		out := []*T{x}
		for _, a := range as {
			x = fn("h", x, a)
			out = append(out, x)
		}
		if op == "Fold" {
			return call, x
		}
		return call, with(h, out...)
	}},
	{"NestList", func(g *listGen) (*T, *T) {
		x, n := g.elem(2), g.r.Intn(7)
		op := pick(g.r, "NestList", "Nest")
		call := sfn(op, sym("h"), x, in(int64(n)))
		out := []*T{x}
		for i := 0; i < n; i++ {
			x = fn("h", x)
			out = append(out, x)
		}
		if op == "Nest" {
			return call, x
		}
		return call, list(out...)
	}},
	{"NestWhileList", func(g *listGen) (*T, *T) {
		// counts up by c while the sum of the last m results is below lim
		c, x, lim, m := 1+g.r.Intn(3), g.r.Intn(4), g.r.Intn(30), 1+g.r.Intn(3)
		slot := func(i int64) *T { return sfn("Slot", in(i)) }
		sum := slot(1)
		for i := int64(2); i <= int64(m); i++ {
			sum = sfn("Plus", sum, slot(i))
		}
		op := pick(g.r, "NestWhileList", "NestWhile")
		ts := []*T{sfn("Function", sfn("Plus", slot(1), in(int64(c)))), in(int64(x)), sfn("Function", sfn("Less", sum, in(int64(lim))))}
		max, extra := 1<<20, 0
		if m > 1 || g.r.Intn(2) == 0 {
			ts = append(ts, in(int64(m)))
			if g.r.Intn(2) == 0 {
				if g.r.Intn(3) > 0 {
					max = g.r.Intn(8)
					ts = append(ts, in(int64(max)))
				} else {
					ts = append(ts, sys("Infinity"))
				}
				if g.r.Intn(2) == 0 {
					extra = g.r.Intn(3)
					ts = append(ts, in(int64(extra)))
				}
			}
		}
		vs := []int{x}
		for len(vs)-1 < max {
			if len(vs) >= m {
				s := 0
				for _, v := range vs[len(vs)-m:] {
					s += v
				}
				if s >= lim {
					break
				}
			}
			vs = append(vs, vs[len(vs)-1]+c)
		}
		for i := 0; i < extra; i++ {
			vs = append(vs, vs[len(vs)-1]+c)
		}
		out := []*T{}
		for _, v := range vs {
			out = append(out, in(int64(v)))
		}
		if op == "NestWhile" {
			return sfn(op, ts...), out[len(out)-1]
		}
		return sfn(op, ts...), list(out...)
	}},
	{"FixedPointList", func(g *listGen) (*T, *T) {
		c, x, lim := 1+g.r.Intn(3), g.r.Intn(9), g.r.Intn(20)
		op := pick(g.r, "FixedPointList", "FixedPoint")
		f := sfn("Function", sfn("Min", sfn("Plus", sfn("Slot", in(1)), in(int64(c))), in(int64(lim))))
		out := []*T{in(int64(x))}
		for {
			y := x + c
			if y > lim {
				y = lim
			}
			out = append(out, in(int64(y)))
			if y == x {
				break
			}
			x = y
		}
		call := sfn(op, f, out[0])
		if op == "FixedPoint" {
			return call, out[len(out)-1]
		}
		return call, list(out...)
	}},
	{"Thread", func(g *listGen) (*T, *T) {
		h := sym(pick(g.r, "f", "h"))
		n := g.r.Intn(4)
		as := []*T{}
		for k := g.r.Intn(4); k > 0; k-- {
			if g.r.Intn(2) == 0 {
				es := []*T{}
				for i := 0; i < n; i++ {
					es = append(es, g.elem(2))
				}
				as = append(as, list(es...))
			} else {
				as = append(as, g.elem(2))
			}
		}
		t := with(h, as...)
		want, ok := threadT(t)
		if !ok {
			want = t
		}
		return sfn("Thread", t), want
	}},
	{"Total", func(g *listGen) (*T, *T) {
		ts := []*T{}
		sum := new(big.Rat)
		for n := g.r.Intn(7); n > 0; n-- {
			x := randSmallRat(g.r)
			sum.Add(sum, x)
			ts = append(ts, ratT(x))
		}
		if len(ts) > 0 && g.r.Intn(2) == 0 {
			return sfn("Mean", list(ts...)), ratT(sum.Quo(sum, big.NewRat(int64(len(ts)), 1)))
		}
		return sfn("Total", list(ts...)), ratT(sum)
	}},
	{"Depth", func(g *listGen) (*T, *T) {
		t := g.elem(5)
		return sfn("Depth", t), in(int64(lstDepth(t)))
	}},
	{"LeafCount", func(g *listGen) (*T, *T) {
		t := g.elem(5)
		return sfn("LeafCount", t), in(leafCountT(t))
	}},
	{"Head", func(g *listGen) (*T, *T) {
		t := g.elem(2)
		return sfn("Head", t), t.head()
	}},
	{"AllTrue", func(g *listGen) (*T, *T) {
		t, p := g.data(g.head(), 4), g.pred()
		if p.t.hasHead("Function") && len(p.t.A) == 2 && p.t.A[1].hasHead("Greater") && p.t.A[1].A[1].hasHead("Slot") {
			return nil, nil // undecided tests
		}
		all := true
		for _, x := range t.args() {
			all = all && p.f(x)
		}
		return sfn("AllTrue", t, p.t), boolT(all)
	}},
	{"ListQ", func(g *listGen) (*T, *T) {
		t := g.elem(1)
		return sfn("ListQ", t), boolT(t.hasHead("List"))
	}},
	{"ReplacePart", func(g *listGen) (*T, *T) {
		t, x := g.data(g.head(), 6), g.elem(1)
		n := len(t.args())
		if n == 0 {
			return nil, nil
		}
		i := 1 + g.r.Intn(n)
		out := append([]*T{}, t.args()...)
		out[i-1] = x
		return sfn("ReplacePart", t, sfn("Rule", in(int64(i)), x)), with(t.A[0], out...)
	}},
	{"Operate", func(g *listGen) (*T, *T) { // list arithmetic
		n := 1 + g.r.Intn(4)
		a, b, out := []*T{}, []*T{}, []*T{}
		sc := randSmallRat(g.r)
		for i := 0; i < n; i++ {
			x, y := randSmallRat(g.r), randSmallRat(g.r)
			a, b = append(a, ratT(x)), append(b, ratT(y))
			v := new(big.Rat).Mul(y, sc)
			out = append(out, ratT(v.Add(v, x)))
		}
		return sfn("Plus", list(a...), sfn("Times", ratT(sc), list(b...))), list(out...)
	}},
}

// chains: functions from lists to lists
var listChain = []struct {
	name string
	f    func(g *listGen, t *T) (call func(*T) *T, want *T)
}{
	{"Reverse", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("Reverse", x) }, with(t.A[0], reversed(t.args())...)
	}},
	{"Sort", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("Sort", x) }, with(t.A[0], sortedT(t.args())...)
	}},
	{"Union", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("Union", x) }, with(t.A[0], sortedT(dedup(t.args()))...)
	}},
	{"DeleteDuplicates", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("DeleteDuplicates", x) }, with(t.A[0], dedup(t.args())...)
	}},
	{"Append", func(g *listGen, t *T) (func(*T) *T, *T) {
		e := g.elem(1)
		return func(x *T) *T { return sfn("Append", x, e) }, with(t.A[0], append(append([]*T{}, t.args()...), e)...)
	}},
	{"Join", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("Join", x, x) }, with(t.A[0], append(append([]*T{}, t.args()...), t.args()...)...)
	}},
	{"Map", func(g *listGen, t *T) (func(*T) *T, *T) {
		out := []*T{}
		for _, a := range t.args() {
			out = append(out, list(a, sym("a")))
		}
		return func(x *T) *T {
			return sfn("Map", sfn("Function", list(sfn("Slot", in(1)), sym("a"))), x)
		}, with(t.A[0], out...)
	}},
	{"Select", func(g *listGen, t *T) (func(*T) *T, *T) {
		p := g.pred()
		out := []*T{}
		for _, a := range t.args() {
			if p.f(a) {
				out = append(out, a)
			}
		}
		return func(x *T) *T { return sfn("Select", x, p.t) }, with(t.A[0], out...)
	}},
	{"Flatten", func(g *listGen, t *T) (func(*T) *T, *T) {
		return func(x *T) *T { return sfn("Flatten", x, in(1)) }, with(t.A[0], flattenT(t, t.A[0], 1)...)
	}},
	{"PadRight", func(g *listGen, t *T) (func(*T) *T, *T) {
		n := g.r.Intn(7)
		out := append([]*T{}, t.args()...)
		for len(out) < n {
			out = append(out, sym("d"))
		}
		return func(x *T) *T { return sfn("PadRight", x, in(int64(n)), sym("d")) }, with(t.A[0], out[:n]...)
	}},
	{"FoldList", func(g *listGen, t *T) (func(*T) *T, *T) {
		// the longest prefix with each element's predecessor
		x := sym("a")
		out := []*T{x}
		for _, a := range t.args() {
			x = list(a)
			out = append(out, x)
		}
		return func(x *T) *T {
			return sfn("FoldList", sfn("Function", list(sfn("Slot", in(2)))), sym("a"), x)
		}, with(t.A[0], out...)
	}},
}

func init() {
	register("P26", "random inert terms (lists and other heads, nested, with many equal elements, numbers of all types) through every implemented list, level, fold and selection function, and chains of them, against reference implementations on the monitor's own terms; the data is looked at again afterwards; distinct = distinct calls", func(c *Ctx) {
		c.Batch("one", c.N(120, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 40; i++ {
				g := newListGen(b.R)
				for k := 0; k < 12; k++ {
					op := listOps[b.R.Intn(len(listOps))]
					call, want := op.f(g)
					if call == nil {
						continue
					}
					b.Case(call.Src())
					got := s.EvalT(call)
					if !same(got, want) {
						b.Fail(op.name, "gives %s, want %s", clip(got.Src(), 300), clip(want.Src(), 300))
					}
					b.Count(op.name, 1)
					b.Seen(call.Key())
				}
			}
		})
		c.Batch("huge", c.N(12, 30), func(b *B) {
			// counts, indices and levels no machine integer can hold
			s := newSess()
			for i := 0; i < 60; i++ {
				hugeCase(b, s, newListGen(b.R))
			}
		})
		c.Batch("chain", c.N(64, 40), func(b *B) {
			s := newSess()
			for i := 0; i < 100; i++ {
				g := newListGen(b.R)
				t := g.data(g.head(), 8)
				s.EvalT(sfn("Set", sym("data"), t))
				call, want := sym("data"), t
				for k := 1 + b.R.Intn(4); k > 0 && len(want.args()) < 60; k-- {
					st := listChain[b.R.Intn(len(listChain))]
					f, w := st.f(g, want)
					call, want = f(call), w
				}
				b.Casef("data = %s; %s", t.Src(), call.Src())
				got := s.EvalT(call)
				if !same(got, want) {
					b.Fail("chain", "gives %s, want %s", clip(got.Src(), 300), clip(want.Src(), 300))
				}
				if now := s.Run("data"); !same(now, t) {
					b.Fail("chain-data", "the data has become %s", clip(now.Src(), 300))
				}
				again := s.EvalT(call)
				if !same(again, want) {
					b.Fail("chain-again", "gives %s the second time, want %s", clip(again.Src(), 300), clip(want.Src(), 300))
				}
				b.Seen(t.Key() + call.Key())
			}
		})
		c.Batch("grow", c.N(16, 40), func(b *B) {
			// histories of AppendTo and PrependTo on variables that share values
			s := newSess()
			vars := []string{"l1", "l2", "l3"}
			for i := 0; i < 30; i++ {
				g := newListGen(b.R)
				val := map[string]*T{}
				hist := ""
				for _, v := range vars {
					val[v] = g.lists(4)
					s.EvalT(sfn("Set", sym(v), val[v]))
					hist += fmt.Sprintf("%s = %s; ", v, val[v].Src())
				}
				for k := 2 + b.R.Intn(12); k > 0; k-- {
					v, w := pick(b.R, vars...), pick(b.R, vars...)
					var call, want *T
					switch b.R.Intn(5) {
					case 0:
						e := g.elem(2)
						call = sfn("AppendTo", sym(v), e)
						want = list(append(append([]*T{}, val[v].args()...), e)...)
					case 1:
						e := g.elem(2)
						call = sfn("PrependTo", sym(v), e)
						want = list(append([]*T{e}, val[v].args()...)...)
					case 2:
						call, want = sfn("Set", sym(v), sym(w)), val[w]
					case 3:
						call = sfn("Set", sym(v), sfn("Join", sym(v), sym(w)))
						want = list(append(append([]*T{}, val[v].args()...), val[w].args()...)...)
					case 4:
						call = sfn("AppendTo", sym(v), sym(w))
						want = list(append(append([]*T{}, val[v].args()...), val[w])...)
					}
					if want.size() > 150 {
						break
					}
					hist += call.Src() + "; "
					b.Case(hist)
					got := s.EvalT(call)
					val[v] = want
					if !same(got, want) {
						b.Fail("grow", "the last step gives %s, want %s", clip(got.Src(), 300), clip(want.Src(), 300))
						break
					}
					for _, x := range vars {
						if now := s.Run(x); !same(now, val[x]) {
							b.Fail("grow-value", "%s is now %s, want %s", x, clip(now.Src(), 300), clip(val[x].Src(), 300))
						}
					}
				}
				b.Seen(hist)
			}
		})
	})
}

// hugeInt makes an integer of 64 bits or more whose low bits are a small one.
func hugeInt(b *B, small int) *T {
	n := new(big.Int).Lsh(big.NewInt(int64(1+b.R.Intn(5))), uint(64+b.R.Intn(2)*b.R.Intn(80)))
	n.Add(n, big.NewInt(int64(b.R.Intn(small)-1)))
	if b.R.Intn(4) == 0 {
		n.Neg(n)
	}
	return bigT(n)
}

func hasBig(t *T) bool {
	found := false
	t.walk(func(u *T) { found = found || u.K == kInt && !u.I.IsInt64() })
	return found
}

// hugeCase makes calls with counts, indices and levels beyond every machine
// integer: an upper bound then excludes nothing, and a call that asks for
// that many elements cannot have any other result.
func hugeCase(b *B, s *Sess, g *listGen) {
	n := hugeInt(b, 6)
	neg := n.I.Sign() < 0
	l := g.lists(6)
	f := sym("fhuge")
	var call, like *T // like: the call has the same result; nil: it stays
	switch b.R.Intn(14) {
	case 0:
		call = sfn("Part", l, n)
	case 1:
		call = sfn("Take", l, n)
	case 2:
		call = sfn("Drop", l, n)
	case 3:
		call = sfn(pick(b.R, "PadRight", "PadLeft"), l, n)
	case 4:
		call = sfn(pick(b.R, "Nest", "NestList"), f, sym("a"), n)
	case 5:
		if neg {
			return
		}
		call = sfn("Array", f, n)
	case 6:
		if neg {
			return
		}
		p := g.pred()
		call, like = sfn("Select", l, p.t, n), sfn("Select", l, p.t)
	case 7:
		if neg {
			return
		}
		call, like = sfn("Flatten", l, n), sfn("Flatten", l)
	case 8:
		if neg {
			return
		}
		call, like = sfn("Map", f, l, n), sfn("Map", f, l, sys("Infinity"))
	case 9:
		call, like = sfn("Map", f, l, list(n)), l
	case 10:
		if neg {
			return
		}
		call, like = sfn("Map", f, l, list(in(1), n)), sfn("Map", f, l, list(in(1), sys("Infinity")))
	case 11:
		if neg {
			return
		}
		call, like = sfn("MatchQ", l, list(sfn("Repeated", sfn("Blank"), list(n)))), boolT(false)
	case 12:
		call = sfn(pick(b.R, "Take", "Drop"), l, list(pickT(b.R, []*T{in(1), n}), n))
	case 13:
		call = sfn("Part", l, n, in(1))
	}
	b.Case(call.Src())
	got := s.EvalT(call)
	if like == nil {
		if !hasBig(got) {
			b.Fail("huge", "gives %s", clip(got.Src(), 300))
		}
	} else if want := s.EvalT(like); !same(got, want) && !hasBig(got) {
		b.Fail("huge", "gives %s, not the %s of %s", clip(got.Src(), 300), clip(want.Src(), 300), clip(like.Src(), 200))
	}
	b.Count("huge", 1)
	b.Seen(call.Key())
}
