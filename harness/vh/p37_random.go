package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// randomForm is a way to draw k numbers: what it is in the language, with %s
// for the call.
var randomForms = []string{
	"Table[%s, {rr, %d}]", "Map[Function[%s], Range[%d]]", "Array[Function[%s], %d]", "Do[AppendTo[rl, %s], {rr, %d}]; rl",
	"Rest[NestList[Function[%s], 0, %d]]", "Module[{l = {}}, While[Length[l] < %[2]d, AppendTo[l, %[1]s]]; l]",
	"rf[a_] := %s; Table[rf[rr], {rr, %d}]", "rf[] := %s; Table[rf[], {rr, %d}]", "rv := %s; Table[rv, {rr, %d}]",
	"Reap[Do[Sow[%s], {rr, %d}]][[2, 1]]", "Range[%[2]d] /. rn_Integer :> %[1]s", "Table[Hold[%s], {rr, %d}] /. Hold[re_] :> re",
	"Table[Identity[%s], {rr, %d}]", "Table[If[True, %s, 0], {rr, %d}]", "Table[Block[{rb = 1}, %s], {rr, %d}]", "Flatten[Table[{%s}, {rr, %d}]]",
	"Table[0 + 1*%s, {rr, %d}]", "Table[Block[{rb = %s}, rb], {rr, %d}]", "Table[rb = %s; rb, {rr, %d}]",
}

func init() {
	register("P37", "histories of SeedRandom and draws (RandomReal[], RandomReal[max], RandomReal[{min, max}] with integers, rationals and reals, in all kinds of loops and definitions) in several sessions in turn: range, type, freshness, the same draws after the same seed in whatever form and whatever happens in other sessions, and the distribution of what was drawn; distinct = distinct histories", func(c *Ctx) {
		c.Batch("histories", c.N(48, 40), func(b *B) {
			ss := []*Sess{keptSess("rand1", ""), keptSess("rand2", "")}
			for i := 0; i < 25; i++ {
				randomHistory(b, ss)
			}
		})
		c.Batch("spread", c.N(4, 20), randomSpread)
	})
}

func drawAll(s *Sess, form, call string, k int) *T {
	s.Run("Clear[rf, rv, rb, rr]; rl = {}")
	f := form
	if strings.Contains(f, "%[2]d") && !strings.Contains(f, "%[1]s") {
		f = strings.Replace(f, "%s", "%[1]s", 1)
	}
	return s.Run(fmt.Sprintf(f, call, k))
}

// randomHistory takes the same draws after the same seeds, in two forms, while
// other things happen between.
func randomHistory(b *B, ss []*Sess) {
	r := b.R
	lo, hi, call := 0.0, 1.0, "RandomReal[]"
	num := func() (*T, float64) {
		switch r.Intn(3) {
		case 0:
			q := randSmallRat(r)
			f, _ := q.Float64()
			return ratT(q), f
		case 1:
			f := float64(r.Intn(201)-100) / 8
			return flt(f), f
		}
		k := int64(r.Intn(41) - 20)
		return in(k), float64(k)
	}
	switch r.Intn(3) {
	case 1:
		t, v := num()
		hi, call = v, fmt.Sprintf("RandomReal[%s]", t.Src())
	case 2:
		t, v := num()
		u, w := num()
		lo, hi, call = v, w, fmt.Sprintf("RandomReal[{%s, %s}]", t.Src(), u.Src())
	}
	k := 2 + r.Intn(8)
	seed := int64(r.Intn(2000) - 500)
	if r.Intn(4) == 0 {
		seed = r.Int63()
	}
	a, c := pick(r, randomForms...), pick(r, randomForms...)
	s, other := ss[0], ss[1]
	b.Casef("SeedRandom[%d]; %s with %s, then %s", seed, call, fmt.Sprint(k, " of ", a), c)
	s.Runf("SeedRandom[%d]", seed)
	one := drawAll(s, a, call, k)
	if !one.hasHead("List") || len(one.A) != k+1 {
		b.Fail("shape", "gives %s", clip(one.Src(), 300))
		return
	}
	seen := map[float64]bool{}
	for _, t := range one.args() {
		x, ok := floatOf(t)
		e := 1e-9 * (math.Abs(lo) + math.Abs(hi))
		if t.K != kFlt || !ok || x < math.Min(lo, hi)-e || x > math.Max(lo, hi)+e {
			b.Fail("range", "gives %s", clip(one.Src(), 300))
			return
		}
		if seen[x] && math.Abs(hi-lo) > 1e-3 {
			b.Fail("fresh", "the same number twice in %s", clip(one.Src(), 300))
		}
		seen[x] = true
	}
	// the same again in another form, in pieces, with other things between
	again := list()
	s.Runf("SeedRandom[%d]", seed)
	for len(again.args()) < k {
		switch r.Intn(6) {
		case 0:
			other.Run("RandomReal[]")
			b.Count("draws elsewhere", 1)
		case 1:
			other.Runf("SeedRandom[%d]", r.Intn(100))
		case 2:
			if r.Intn(40) == 0 {
				newSess()
				b.Count("sessions begun between", 1)
			}
		case 3:
			s.Run(pick(r, "Sort[{3, 1, 2}]", "Expand[(x + y)^3]", "Unique[]", "SeedRandom[x]", "Hold[RandomReal[]]", "RandomReal", "SeedRandom[]", "Hash[x]", "Module[{q}, q]", "PrimeQ[101]"))
		}
		n := 1 + r.Intn(k-len(again.args()))
		part := drawAll(s, c, call, n)
		if !part.hasHead("List") || len(part.A) != n+1 {
			b.Fail("shape", "gives %s", clip(part.Src(), 300))
			return
		}
		again = list(append(append([]*T{}, again.args()...), part.args()...)...)
	}
	if !same(one, again) {
		b.Fail("seed", "gives %s, and then %s", clip(one.Src(), 300), clip(again.Src(), 300))
	}
	if math.Abs(hi-lo) > 1e-3 {
		s.Runf("SeedRandom[%d]", seed+1+int64(r.Intn(5)))
		if third := drawAll(s, a, call, k); same(third, one) {
			b.Fail("seeds", "another seed also gives %s", clip(one.Src(), 300))
		}
	}
	b.Count("draws", int64(3*k))
	b.Seen(fmt.Sprint(seed, call, k, a, c))
}

// randomSpread compares a sample with the uniform distribution, and the
// differences of its neighbours with that of independent draws.
func randomSpread(b *B) {
	s := newSess()
	seed := b.R.Intn(1000000)
	n := 3000
	src := fmt.Sprintf("SeedRandom[%d]; Table[RandomReal[], {rr, %d}]", seed, n)
	b.Case(src)
	t := s.Run(src)
	if !t.hasHead("List") || len(t.A) != n+1 {
		b.Fail("shape", "gives %s", clip(t.Src(), 300))
		return
	}
	var xs, ds []float64
	for i, u := range t.args() {
		x, _ := floatOf(u)
		if i > 0 {
			d := x - xs[i-1]
			ds = append(ds, d-math.Floor(d))
		}
		xs = append(xs, x)
	}
	for name, v := range map[string][]float64{"values": xs, "differences": ds} {
		sort.Float64s(v)
		worst := 0.0
		for i, x := range v {
			worst = math.Max(worst, math.Max(math.Abs(x-float64(i)/float64(len(v))), math.Abs(x-float64(i+1)/float64(len(v)))))
		}
		// exceeded by independent uniform draws once in 10^12
		if worst*math.Sqrt(float64(len(v))) > 3.8 {
			b.Fail("spread", "the %s are %v away from uniform", name, worst)
		}
	}
	b.Count("draws", int64(n))
	b.Seen(src)
}
