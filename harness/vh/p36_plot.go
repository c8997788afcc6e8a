package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"strings"

	"github.com/corywalker/expreduce/expreduce/graphics"
	chart "github.com/wcharczuk/go-chart"
)

// plotFn makes a function of v, and what it is without user functions.
func plotFn(b *B, v *T, k int) (src, plain *T, def string) {
	g := calcGen{b.R}
	for {
		t := g.term(1 + b.R.Intn(3))
		t = mapSym(t, "x", v)
		t = mapSym(t, "y", pickT(b.R, []*T{in(2), rat(1, 3), flt(1.5), sys("E")}))
		if t.size() > 40 || explosive(t, false) {
			continue
		}
		// Values that depend on the variable in the end are real numbers.
		if k > 0 && b.R.Intn(3) == 0 && hasSym(keptSess("plot", "").EvalT(t), v) {
			// through a function of the user
			f := sym(fmt.Sprintf("plotf%d", k))
			body := mapSym(t, strings.TrimPrefix(v.S, "Global`"), sym("arg"))
			pat := pick(b.R, "arg_", "arg_?NumberQ", "arg_Real", "arg_ /; NumberQ[arg]")
			return ex(f, v), t, fmt.Sprintf("%s[%s] := %s", f.Src(), pat, body.Src())
		}
		return t, t, ""
	}
}

func mapSym(t *T, name string, to *T) *T {
	if t.K == kSym && t.S == "Global`"+name {
		return to
	}
	if t.K != kExpr {
		return t
	}
	out := make([]*T, len(t.A))
	for i, a := range t.A {
		out[i] = mapSym(a, name, to)
	}
	return ex(out...)
}

// explosive says whether there are powers or poles in an exponent.
func explosive(t *T, inside bool) bool {
	if t.K != kExpr {
		return false
	}
	exp := t.hasHead("Exp") || t.hasHead("Power") && ratOf(t.A[2]) == nil
	if inside && (exp || t.hasHead("Power") || t.hasHead("Tan") || t.hasHead("Cot")) {
		return true
	}
	for i, a := range t.A {
		if explosive(a, inside || exp && i == len(t.A)-1) {
			return true
		}
	}
	return false
}

func hasSym(t, v *T) bool {
	found := false
	t.walk(func(u *T) { found = found || same(u, v) })
	return found
}

// realAll says whether every part of t is real at the point.
func realAll(t *T, env map[string]complex128) bool {
	if t.K == kSym && env[t.S] == 0 && strings.HasPrefix(t.S, "Global`") {
		return true
	}
	v := errEval(t, env)
	if !v.ok || v.cut || imag(v.v) != 0 {
		return false
	}
	if t.K == kExpr {
		for _, a := range t.A[1:] {
			if !realAll(a, env) {
				return false
			}
		}
	}
	return true
}

func init() {
	register("P36", "random plots of one to five functions of elementary functions (written out, in a list, through functions and lists of the user), over ranges with integer, rational, real and exact limits in both directions, with and without values of the variable and of names Plot uses outside; each point is compared with an independent evaluation, each missing point must not be real there, and what Render makes of the plot with the points; distinct = distinct plots", func(c *Ctx) {
		c.Batch("plots", c.N(56, 25), func(b *B) {
			for i := 0; i < 12; i++ {
				plotCase(b)
			}
		})
	})
}

func plotCase(b *B) {
	s := keptSess("plot", "")
	r := b.R
	v := sym(pick(r, "x", "t", "lines", "i", "range", "fn", "varOfIteration", "n"))
	n := 1 + r.Intn(5)
	if r.Intn(2) == 0 {
		n = 1
	}
	var fs, plain []*T
	var defs []string
	for k := 0; k < n; k++ {
		f, p, d := plotFn(b, v, k+1)
		fs, plain = append(fs, f), append(plain, p)
		if d != "" {
			defs = append(defs, d)
		}
	}
	limit := func() (*T, float64) {
		switch r.Intn(5) {
		case 0:
			q := randSmallRat(r)
			f, _ := q.Float64()
			return ratT(q), f
		case 1:
			f := float64(r.Intn(81)-40) / 8
			return flt(f), f
		case 2:
			k := int64(r.Intn(5) - 2)
			return sfn("Times", in(k), sys("Pi")), float64(k) * math.Pi
		case 3:
			return sfn("Sqrt", in(2)), math.Sqrt2
		}
		k := int64(r.Intn(13) - 6)
		return in(k), float64(k)
	}
	loT, lo := limit()
	hiT, hi := limit()
	if math.Abs(hi-lo) < 0.1 {
		return
	}
	body := list(fs...)
	if n == 1 && r.Intn(3) > 0 {
		body = fs[0]
	} else if r.Intn(4) == 0 && len(defs) == 0 {
		defs = append(defs, fmt.Sprintf("plotlist = %s", body.Src()))
		body = sym("plotlist")
	}
	vs := v.Src()
	outside := ""
	if body.K != kSym && r.Intn(2) == 0 {
		outside = pick(r, "7", "{1, 2}", "plotz^2", "0.25", "\"s\"")
		defs = append(defs, fmt.Sprintf("%s = %s", vs, outside))
	}
	src := fmt.Sprintf("Plot[%s, {%s, %s, %s}]", body.Src(), vs, loT.Src(), hiT.Src())
	defer s.Run("Clear[plotf1, plotf2, plotf3, plotf4, plotf5, plotlist, " + vs + "]")
	for _, d := range defs {
		s.Run(d)
	}
	b.Case(strings.Join(append(defs, src), "; "))
	b.Seen(src)
	var got, after *T
	if p := guard(func() { got = s.Run(src) }); p != nil {
		b.Fail("panic", "%v", p)
		return
	}
	after = s.Run("Hold[Evaluate[" + vs + "]]")
	want := sfn("Hold", v)
	if outside != "" {
		want = s.Run("Hold[" + outside + "]")
	}
	if !same(after, want) {
		b.Fail("outside", "afterwards %s is %s", vs, clip(after.Src(), 200))
	}
	if !got.hasHead("Graphics") || len(got.A) != 3 || !got.A[1].hasHead("List") || len(got.A[1].A) != n+1 {
		b.Fail("shape", "gives %s", clip(got.Src(), 300))
		return
	}
	step := (hi - lo) / 500
	type line struct{ x, y []float64 }
	var drawn []line
	for k := 0; k < n; k++ {
		l := got.A[1].A[k+1]
		if !l.hasHead("List") || len(l.A) != 3 || !l.A[1].hasHead("Directive") || !l.A[2].hasHead("Line") || len(l.A[2].A) != 2 || !l.A[2].A[1].hasHead("List") {
			b.Fail("shape", "curve %d is %s", k+1, clip(l.Src(), 300))
			return
		}
		colour := false
		for _, d := range l.A[1].args() {
			colour = colour || d.hasHead("RGBColor") && len(d.A) == 4 && d.A[1].K == kFlt && d.A[2].K == kFlt && d.A[3].K == kFlt
		}
		if !colour {
			b.Fail("colour", "curve %d has no colour: %s", k+1, l.A[1].Src())
		}
		var cur line
		next := 0
		missing := func(j int) {
			at := lo + float64(j)*step
			d := 1e-9 * (math.Abs(lo) + math.Abs(hi))
			for _, x := range []float64{at, at - d, at + d} {
				if !realAll(plain[k], map[string]complex128{v.S: complex(x, 0)}) {
					b.Count("left out", 1)
					return
				}
			}
			b.Fail("missing", "curve %d, %s, has no point at %v", k+1, plain[k].Src(), at)
		}
		for _, p := range l.A[2].A[1].args() {
			if !p.hasHead("List") || len(p.A) != 3 || p.A[1].K != kFlt || p.A[2].K != kFlt {
				b.Fail("point", "curve %d has the point %s", k+1, clip(p.Src(), 200))
				return
			}
			x, _ := p.A[1].F.Float64()
			y, _ := p.A[2].F.Float64()
			cur.x, cur.y = append(cur.x, x), append(cur.y, y)
			j := int(math.Round((x - lo) / step))
			if math.Abs(x-(lo+float64(j)*step)) > 1e-9*(math.Abs(lo)+math.Abs(hi)) || j < next || j > 500 {
				b.Fail("grid", "curve %d has a point at %v after %d steps", k+1, x, next)
				return
			}
			for ; next < j; next++ {
				missing(next)
			}
			next = j + 1
			w := errEval(plain[k], map[string]complex128{v.S: complex(x, 0)})
			if !w.ok || w.cut {
				b.Count("unjudged points", 1)
				continue
			}
			b.Count("points", 1)
			if d := cmplx.Abs(w.v - complex(y, 0)); d > 1e3*w.e+1e-9*math.Abs(y)+1e-12 {
				b.Fail("value", "curve %d, %s, has %v at %v, not %v", k+1, plain[k].Src(), y, x, w.v)
				return
			}
		}
		for ; next < 500; next++ {
			missing(next)
		}
		drawn = append(drawn, cur)
	}
	// The ranges shown
	for _, o := range got.A[2].args() {
		if o.hasHead("Rule") && o.A[1].K == kSym && o.A[1].S == "System`PlotRange" {
			checkPlotRange(b, o.A[2], lo, hi, func(f func(y float64)) {
				for _, l := range drawn {
					for _, y := range l.y {
						f(y)
					}
				}
			})
		}
	}
	ch, err := graphics.Render(got.Ex())
	if err != nil || len(ch.Series) != n {
		b.Fail("render", "rendering gives %d curves and the error %v", len(ch.Series), err)
		return
	}
	colours := map[string]bool{}
	for k, l := range drawn {
		cs, ok := ch.Series[k].(chart.ContinuousSeries)
		if !ok || fmt.Sprint(cs.XValues, cs.YValues) != fmt.Sprint(l.x, l.y) {
			b.Fail("render", "curve %d is rendered otherwise", k+1)
		}
		colours[fmt.Sprint(cs.Style.StrokeColor)] = true
	}
	if len(colours) < min(n, 3) {
		b.Fail("colours", "%d curves have %d colours", n, len(colours))
	}
	b.Count("curves", int64(n))
}

// checkPlotRange compares the stated ranges with the limits and the points.
func checkPlotRange(b *B, t *T, lo, hi float64, ys func(func(float64))) {
	ymin, ymax, n := math.Inf(1), math.Inf(-1), 0
	ys(func(y float64) { ymin, ymax, n = math.Min(ymin, y), math.Max(ymax, y), n+1 })
	num := func(t *T) float64 {
		f, ok := floatOf(t)
		if !ok {
			return math.NaN()
		}
		return f
	}
	if !t.hasHead("List") || len(t.A) != 3 || len(t.A[1].A) != 3 || len(t.A[2].A) != 3 {
		b.Fail("plotrange", "PlotRange is %s", t.Src())
		return
	}
	x, y := t.A[1], t.A[2]
	eq := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
	if !eq(num(x.A[1]), math.Min(lo, hi)) || !eq(num(x.A[2]), math.Max(lo, hi)) {
		b.Fail("plotrange", "PlotRange of the variable is %s, not %v to %v", x.Src(), lo, hi)
	}
	if n > 0 && (!eq(num(y.A[1]), ymin) || !eq(num(y.A[2]), ymax)) {
		b.Fail("plotrange", "PlotRange of the values is %s, not %v to %v", y.Src(), ymin, ymax)
	}
}
