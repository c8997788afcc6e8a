package main

import (
	"math/big"
	"math/rand"
)

// Reference implementations of list functions on terms.

// listGen makes inert terms: elements come from a small pool, so that many are
// the same.
type listGen struct {
	r    *rand.Rand
	pool []*T
}

func newListGen(r *rand.Rand) *listGen {
	g := &listGen{r: r}
	for n := 3 + r.Intn(6); n > 0; n-- {
		g.pool = append(g.pool, g.elem(r.Intn(3)))
	}
	return g
}

func (g *listGen) atom() *T {
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return in(int64(g.r.Intn(7) - 2))
	case 3:
		return str(pick(g.r, "a", "b", ""))
	case 4:
		return pickT(g.r, []*T{rat(1, 2), rat(-3, 2), flt(1.5), flt(2), cplx(in(1), in(2))})
	}
	return sym(pick(g.r, "a", "b", "c", "d"))
}

func (g *listGen) head() *T {
	if g.r.Intn(3) > 0 {
		return sys("List")
	}
	return sym(pick(g.r, "f", "g"))
}

func (g *listGen) elem(d int) *T {
	if d <= 0 || g.r.Intn(3) == 0 {
		return g.atom()
	}
	out := []*T{g.head()}
	for n := g.r.Intn(4); n > 0; n-- {
		if len(g.pool) > 0 && g.r.Intn(3) == 0 {
			out = append(out, pickT(g.r, g.pool))
		} else {
			out = append(out, g.elem(d-1))
		}
	}
	return ex(out...)
}

// data is a term with arguments from the pool.
func (g *listGen) data(h *T, max int) *T {
	out := []*T{h}
	for n := g.r.Intn(max + 1); n > 0; n-- {
		if g.r.Intn(4) == 0 {
			out = append(out, g.elem(3))
		} else {
			out = append(out, pickT(g.r, g.pool))
		}
	}
	return ex(out...)
}

func (g *listGen) lists(max int) *T { return g.data(sys("List"), max) }

func with(h *T, args ...*T) *T { return ex(append([]*T{h}, args...)...) }

func dedup(ts []*T) (out []*T) {
	seen := map[string]bool{}
	for _, t := range ts {
		if !seen[t.Key()] {
			seen[t.Key()] = true
			out = append(out, t)
		}
	}
	return
}

func keysOf(ts []*T) map[string]bool {
	out := map[string]bool{}
	for _, t := range ts {
		out[t.Key()] = true
	}
	return out
}

func reversed(ts []*T) []*T {
	out := []*T{}
	for i := len(ts) - 1; i >= 0; i-- {
		out = append(out, ts[i])
	}
	return out
}

func sortedT(ts []*T) []*T { return sortT(append([]*T{}, ts...)) }

func tallyT(ts []*T) *T {
	out := []*T{}
	for _, d := range dedup(ts) {
		n := int64(0)
		for _, t := range ts {
			if same(t, d) {
				n++
			}
		}
		out = append(out, list(d, in(n)))
	}
	return list(out...)
}

func flattenT(t *T, h *T, level int) []*T {
	out := []*T{}
	for _, a := range t.args() {
		if a.K == kExpr && same(a.A[0], h) && level != 0 {
			out = append(out, flattenT(a, h, level-1)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func lstDepth(t *T) int {
	if t.K != kExpr {
		return 1
	}
	d := 1
	for _, a := range t.args() {
		if x := lstDepth(a); x > d {
			d = x
		}
	}
	return d + 1
}

func leafCountT(t *T) int64 {
	if t.K != kExpr {
		return 1
	}
	n := int64(0)
	for _, a := range t.A {
		n += leafCountT(a)
	}
	return n
}

// levelSpecT is a level specification.
type levelSpecT struct {
	lo, hi int // negative: by depth
	t      *T
}

const lstInf = 1 << 20

func (g *listGen) level() levelSpecT {
	lv := func() (int, *T) {
		switch g.r.Intn(7) {
		case 0:
			return lstInf, sys("Infinity")
		case 1, 2:
			n := -1 - g.r.Intn(3)
			return n, in(int64(n))
		}
		n := g.r.Intn(4)
		return n, in(int64(n))
	}
	switch g.r.Intn(3) {
	case 0:
		n, t := lv()
		return levelSpecT{1, n, t}
	case 1:
		n, t := lv()
		return levelSpecT{n, n, list(t)}
	}
	m, a := lv()
	n, b := lv()
	return levelSpecT{m, n, list(a, b)}
}

func (l levelSpecT) has(level, depth int) bool {
	if l.lo >= 0 && level < l.lo || l.lo < 0 && depth > -l.lo {
		return false
	}
	if l.hi >= 0 && level > l.hi || l.hi < 0 && depth < -l.hi {
		return false
	}
	return true
}

// lstMapLevels applies f to the parts at the levels, innermost first.
func lstMapLevels(t *T, l levelSpecT, pos []int64, f func(x *T, pos []int64) *T) *T {
	out := t
	if t.K == kExpr {
		as := []*T{t.A[0]}
		for i, a := range t.args() {
			p := append(append([]int64{}, pos...), int64(i+1))
			as = append(as, lstMapLevels(a, l, p, f))
		}
		out = ex(as...)
	}
	if l.has(len(pos), lstDepth(t)) {
		return f(out, pos)
	}
	return out
}

func posT(pos []int64) *T {
	ts := []*T{}
	for _, p := range pos {
		ts = append(ts, in(p))
	}
	return list(ts...)
}

// index is one index of Part.
type indexT struct {
	lo, hi int
	single bool
	t      *T
}

func (g *listGen) index(n int) indexT {
	if g.r.Intn(6) == 0 {
		return indexT{1, -1, false, sys("All")}
	}
	if n > 0 && g.r.Intn(3) == 0 {
		lo := 1 + g.r.Intn(n)
		if g.r.Intn(3) == 0 {
			return indexT{lo, -1, false, sfn("Span", in(int64(lo)), sys("All"))}
		}
		hi := lo - 1 + g.r.Intn(n-lo+2)
		return indexT{lo, hi, false, sfn("Span", in(int64(lo)), in(int64(hi)))}
	}
	i := g.r.Intn(n + 1)
	return indexT{i, i, true, in(int64(i))}
}

// partT gives what Part selects, or false when there is no such part.
func partT(t *T, ix []indexT) (*T, bool) {
	if len(ix) == 0 {
		return t, true
	}
	if t.K != kExpr {
		return nil, false
	}
	i := ix[0]
	if i.hi < 0 { // All
		i.hi = len(t.A) - 1
	}
	if i.lo > i.hi+1 {
		return nil, false
	}
	if i.hi >= len(t.A) || i.lo < 0 {
		return nil, false
	}
	if i.single {
		return partT(t.A[i.lo], ix[1:])
	}
	out := []*T{t.A[0]}
	for k := i.lo; k <= i.hi; k++ {
		p, ok := partT(t.A[k], ix[1:])
		if !ok {
			return nil, false
		}
		out = append(out, p)
	}
	return ex(out...), true
}

func threadT(t *T) (*T, bool) {
	n := -1
	for _, a := range t.args() {
		if a.hasHead("List") {
			if n >= 0 && n != len(a.A)-1 {
				return t, false
			}
			n = len(a.A) - 1
		}
	}
	if n < 0 {
		return t, true
	}
	out := []*T{}
	for i := 1; i <= n; i++ {
		as := []*T{t.A[0]}
		for _, a := range t.args() {
			if a.hasHead("List") {
				as = append(as, a.A[i])
			} else {
				as = append(as, a)
			}
		}
		out = append(out, ex(as...))
	}
	return list(out...), true
}

// predT is a predicate both as a term and as a Go function.
type predT struct {
	t *T
	f func(*T) bool
}

func (g *listGen) pred() predT {
	slot := sfn("Slot", in(1))
	switch g.r.Intn(6) {
	case 0:
		return predT{sys("IntegerQ"), func(t *T) bool { return t.K == kInt }}
	case 1:
		return predT{sys("AtomQ"), func(t *T) bool { return t.K != kExpr }}
	case 2:
		x := pickT(g.r, g.pool)
		return predT{sfn("Function", sfn("SameQ", slot, x)), func(t *T) bool { return same(t, x) }}
	case 3:
		x := pickT(g.r, g.pool)
		return predT{sfn("Function", sys("y"), sfn("UnsameQ", sys("y"), x)), func(t *T) bool { return !same(t, x) }}
	case 4:
		n := int64(g.r.Intn(3))
		return predT{sfn("Function", sfn("Greater", sfn("Length", slot), in(n))), func(t *T) bool { return int64(len(t.args())) > n }}
	}
	// not decided for symbols: counts as false
	n := int64(g.r.Intn(3))
	return predT{sfn("Function", sfn("Greater", slot, in(n))), func(t *T) bool {
		r := ratOf(t)
		return (t.K == kInt || t.K == kRat || t.K == kFlt) && r.Cmp(new(big.Rat).SetInt64(n)) > 0
	}}
}

// patt is a pattern for elements.
func (g *listGen) patt() *T {
	blank := func(h ...*T) *T { return sfn("Blank", h...) }
	x := func(p *T) *T { return sfn("Pattern", sym("x"), p) }
	switch g.r.Intn(12) {
	case 0:
		return blank(sys("Integer"))
	case 1:
		return blank(sys("List"))
	case 2:
		return blank(sym("f"))
	case 3:
		return x(blank(sys("Symbol")))
	case 4:
		return with(g.head(), x(blank()), x(blank()))
	case 5:
		return with(g.head(), sfn("BlankSequence"))
	case 6:
		return with(g.head(), x(blank()), sfn("BlankNullSequence"))
	case 7:
		return sfn("Alternatives", pickT(g.r, g.pool), g.atom())
	case 8:
		return sfn("PatternTest", blank(), sys("IntegerQ"))
	case 9:
		return blank(sys("String"))
	case 10:
		return x(blank())
	}
	return pickT(g.r, g.pool)
}
