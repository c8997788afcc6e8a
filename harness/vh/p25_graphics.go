package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"image"
	"image/png"
	"math"
	"math/rand"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce/graphics"
	chart "github.com/wcharczuk/go-chart"
)

// gStyle is the style in force: colour components, opacity and thickness.
type gStyle struct {
	rgb   [3]float64
	a     float64
	anyA  bool // the opacity is not determined: a colour followed an opacity
	setA  bool
	width float64
}

type gSeries struct {
	x, y  []float64
	style gStyle
}

// gDraw is the model of Render: the series in order, or false for an error.
func gDraw(t *T, st *gStyle, out *[]gSeries) bool {
	switch {
	case t.hasHead("List"):
		inner := *st
		for _, x := range t.args() {
			if !gDraw(x, &inner, out) {
				return false
			}
		}
	case t.hasHead("Directive"):
		for _, d := range t.args() {
			if !gDirective(d, st) {
				return false
			}
		}
	case t.hasHead("Line"):
		if len(t.A) != 2 || !t.A[1].hasHead("List") {
			return false
		}
		s := gSeries{style: *st}
		for _, p := range t.A[1].args() {
			if !p.hasHead("List") || len(p.A) != 3 || p.A[1].K != kFlt || p.A[2].K != kFlt {
				return false
			}
			x, _ := p.A[1].F.Float64()
			y, _ := p.A[2].F.Float64()
			s.x, s.y = append(s.x, x), append(s.y, y)
		}
		*out = append(*out, s)
	}
	return true
}

func gDirective(d *T, st *gStyle) bool {
	reals := func(n int) bool {
		if len(d.A) != n+1 {
			return false
		}
		for _, x := range d.args() {
			if x.K != kFlt {
				return false
			}
		}
		return true
	}
	switch {
	case d.hasHead("RGBColor"):
		if !reals(3) {
			return false
		}
		for i := range st.rgb {
			st.rgb[i], _ = d.A[i+1].F.Float64()
		}
		if st.setA {
			st.anyA = true
		} else {
			st.a = 1
		}
	case d.hasHead("Opacity"):
		if !reals(1) {
			return false
		}
		st.a, _ = d.A[1].F.Float64()
		st.setA, st.anyA = true, false
	case d.hasHead("AbsoluteThickness"):
		if !reals(1) {
			return false
		}
		st.width, _ = d.A[1].F.Float64()
	}
	return true
}

func gUnit(r *rand.Rand) *T { return flt(float64(r.Intn(101)) / 100) }

func gCoord(r *rand.Rand) *T {
	switch r.Intn(4) {
	case 0:
		return flt(float64(r.Intn(21) - 10))
	case 1:
		return flt(r.NormFloat64() * math.Pow(10, float64(r.Intn(13)-6)))
	}
	return flt(float64(r.Intn(2001)-1000) / 8)
}

// gPrim is a random primitive; bad makes malformed parts possible.
func gPrim(r *rand.Rand, d int, bad bool) *T {
	spoil := bad && r.Intn(12) == 0
	switch k := r.Intn(8); {
	case k < 2 && d > 0:
		a := []*T{}
		for i := r.Intn(5); i > 0; i-- {
			a = append(a, gPrim(r, d-1, bad))
		}
		return list(a...)
	case k < 4:
		a := []*T{}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, gDir(r, bad))
		}
		return sfn("Directive", a...)
	case k == 4:
		return pickT(r, []*T{sfn("Circle", list(flt(0), flt(0))), in(3), sym("x"), fn("Line", list()), sfn("RGBColor", flt(1), flt(0), flt(0)), str("s")})
	}
	pts := []*T{}
	for i := r.Intn(6); i > 0; i-- {
		p := list(gCoord(r), gCoord(r))
		if bad && r.Intn(12) == 0 {
			p = pickT(r, []*T{list(gCoord(r)), list(in(1), gCoord(r)), list(gCoord(r), rat(1, 2)), list(gCoord(r), gCoord(r), gCoord(r)), sym("x"), fn("p", gCoord(r), gCoord(r)), list(gCoord(r), sym("y")), list()})
		}
		pts = append(pts, p)
	}
	if spoil {
		return pickT(r, []*T{sfn("Line"), sfn("Line", list(pts...), in(1)), sfn("Line", sym("x")), sfn("Line", fn("f", pts...))})
	}
	return sfn("Line", list(pts...))
}

func gDir(r *rand.Rand, bad bool) *T {
	if bad && r.Intn(12) == 0 {
		return pickT(r, []*T{sfn("RGBColor", gUnit(r), gUnit(r)), sfn("RGBColor", in(1), gUnit(r), gUnit(r)), sfn("RGBColor", gUnit(r), gUnit(r), in(0)), sfn("Opacity"), sfn("Opacity", in(1)), sfn("Opacity", gUnit(r), gUnit(r)), sfn("AbsoluteThickness", sym("x")), sfn("AbsoluteThickness"), sfn("RGBColor")})
	}
	switch r.Intn(7) {
	case 0, 1, 2:
		return sfn("RGBColor", gUnit(r), gUnit(r), gUnit(r))
	case 3, 4:
		return sfn("Opacity", gUnit(r))
	case 5:
		return pickT(r, []*T{sfn("Dashing", flt(1)), sym("x"), sfn("Thickness", flt(2))})
	}
	return sfn("AbsoluteThickness", flt(float64(r.Intn(40))/8))
}

// gCheck compares a rendered series with the model.
func gCheck(w gSeries, s chart.Series) string {
	c, ok := s.(chart.ContinuousSeries)
	if !ok {
		return fmt.Sprintf("a series of type %T", s)
	}
	if len(c.XValues) != len(w.x) || len(c.YValues) != len(w.y) {
		return fmt.Sprintf("%d x and %d y values, not %d", len(c.XValues), len(c.YValues), len(w.x))
	}
	for i := range w.x {
		if c.XValues[i] != w.x[i] || c.YValues[i] != w.y[i] {
			return fmt.Sprintf("point %d is (%v, %v), not (%v, %v)", i+1, c.XValues[i], c.YValues[i], w.x[i], w.y[i])
		}
	}
	if c.Style.StrokeWidth != w.style.width {
		return fmt.Sprintf("thickness %v, not %v", c.Style.StrokeWidth, w.style.width)
	}
	if !c.Style.Show {
		return "not shown"
	}
	sc := c.Style.StrokeColor
	for i, v := range []uint8{sc.R, sc.G, sc.B} {
		if math.Abs(float64(v)-255*w.style.rgb[i]) >= 1.001 {
			return fmt.Sprintf("colour %v, not %v", sc, w.style.rgb)
		}
	}
	if !w.style.anyA && math.Abs(float64(sc.A)-255*w.style.a) >= 1.001 {
		return fmt.Sprintf("opacity %d/255, not %v", sc.A, w.style.a)
	}
	return ""
}

func init() {
	register("P25", "random nested graphics with directives (valid, unknown and malformed) rendered and compared with a model of scoping; PNG exports decoded and searched for the colours; random plots compared with the functions; distinct = distinct series lists", func(c *Ctx) {
		for _, bad := range []bool{false, true} {
			bad := bad
			name := "render"
			if bad {
				name = "malformed"
			}
			c.Batch(name, c.N(64, 16), func(b *B) {
				swapStd(b, func(_, _ *os.File) {
					for i := 0; i < 400; i++ {
						prims := []*T{}
						for k := r1(b.R, 5); k > 0; k-- {
							prims = append(prims, gPrim(b.R, 4, bad))
						}
						t := sfn("Graphics", list(prims...))
						if b.R.Intn(6) == 0 {
							t = sfn("Graphics", gPrim(b.R, 3, bad), list(sfn("Rule", sys("Axes"), boolT(true))))
						}
						if bad {
							switch b.R.Intn(40) {
							case 0:
								t = sfn("Graphics")
							case 1:
								t = pickT(b.R, []*T{list(prims...), sys("Graphics"), in(1), fn("Graphics", list(prims...)), sfn("Line", list())})
							}
						}
						b.Case(t.String())
						e := t.Ex()
						graph, err := graphics.Render(e)
						if got := fromEx(e); !same(got, t) {
							b.Fail("mutated", "the expression is now %s", got)
						}
						want := []gSeries{}
						ok := t.hasHead("Graphics") && len(t.A) >= 2 && gDraw(t.A[1], &gStyle{a: 1}, &want)
						if (err == nil) != ok {
							b.Fail("error", "err = %v, but the graphics is valid: %v", err, ok)
							continue
						}
						b.Seen(fmt.Sprintf("%v", want))
						if !ok {
							continue
						}
						if len(graph.Series) != len(want) {
							b.Fail("lines", "%d series, but %d lines", len(graph.Series), len(want))
							continue
						}
						for k, w := range want {
							if msg := gCheck(w, graph.Series[k]); msg != "" {
								b.Fail("series", "line %d: %s", k+1, msg)
							}
						}
					}
				})
			})
		}
		c.Batch("png", c.N(32, 8), func(b *B) {
			s := newSess()
			swapStd(b, func(_, _ *os.File) {
				for i := 0; i < 6; i++ {
					prims := []*T{}
					cols := [][3]float64{}
					n := 1 + b.R.Intn(3)
					for k := 0; k < n; k++ {
						// Every line runs across the whole picture at its own height.
						h := float64(b.R.Intn(20) - 10)
						pts := list(list(flt(0), flt(float64(k*40)+h)), list(flt(5), flt(float64(k*40)-h/2)), list(flt(10), flt(float64(k*40)+20)))
						col := [3]float64{float64(b.R.Intn(5)) / 4, float64(b.R.Intn(5)) / 4, float64(b.R.Intn(3)) / 4}
						cols = append(cols, col)
						prims = append(prims, list(sfn("Directive", sfn("RGBColor", flt(col[0]), flt(col[1]), flt(col[2])), sfn("AbsoluteThickness", flt(4)), sfn("Opacity", flt(1))), sfn("Line", pts)))
					}
					t := sfn("ExportString", sfn("Graphics", list(prims...)), str(pick(b.R, "PNG", "png", "Png")))
					b.Case(t.String())
					got := s.EvalT(t)
					if got.K != kStr {
						b.Fail("png", "gives %s", clip(got.String(), 100))
						continue
					}
					img, err := png.Decode(strings.NewReader(got.S))
					if err != nil {
						b.Fail("png", "not a PNG: %v", err)
						continue
					}
					if z := img.Bounds().Size(); z != (image.Point{X: 360, Y: 220}) {
						b.Fail("png", "its size is %v", z)
					}
					b.Seen(fmt.Sprint(cols))
					for _, col := range cols {
						if n := countColour(img, col); n < 200 {
							b.Fail("png-colour", "only %d pixels have the colour %v", n, col)
						}
					}
					// Base64 of the same bytes.
					b64 := s.EvalT(sfn("ExportString", str(got.S), str("Base64")))
					dec, err := base64.StdEncoding.DecodeString(strings.TrimSpace(b64.S))
					if b64.K != kStr || err != nil || !bytes.Equal(dec, []byte(got.S)) {
						b.Fail("base64", "the Base64 text does not decode to the PNG")
					}
				}
				for _, t := range []*T{sfn("Graphics", list()), sfn("Graphics"), fn("f", sym("x")), sfn("Graphics", sfn("Line", sym("x")))} {
					b.Case(t.String())
					if got := s.EvalT(sfn("ExportString", t, str("PNG"))); !same(got, sys("$Failed")) {
						b.Fail("png-failed", "ExportString gives %s", clip(got.String(), 100))
					}
				}
				for i := 0; i < 60; i++ {
					raw := make([]byte, b.R.Intn(40))
					b.R.Read(raw)
					t := sfn("ExportString", str(string(raw)), str("Base64"))
					b.Casef("%q", raw)
					got := s.EvalT(t)
					dec, err := base64.StdEncoding.DecodeString(strings.TrimSpace(got.S))
					if got.K != kStr || err != nil || !bytes.Equal(dec, raw) {
						b.Fail("base64", "gives %s", got)
					}
				}
			})
		})
		c.Batch("plot", c.N(32, 8), func(b *B) {
			s := newSess()
			for i := 0; i < 4; i++ {
				n := 1 + b.R.Intn(3)
				fs, vals := []string{}, []func(x float64) float64{}
				for k := 0; k < n; k++ {
					p, q := float64(b.R.Intn(9)-4), float64(b.R.Intn(5)+1)
					f := []struct {
						src string
						val func(x float64) float64
					}{
						{"%v*x^2 - %v*x", func(x float64) float64 { return p*x*x - q*x }},
						{"%v + Sin[%v x]", func(x float64) float64 { return p + math.Sin(q*x) }},
						{"%v*x + Cos[x]/%v", func(x float64) float64 { return p*x + math.Cos(x)/q }},
						{"%v - x^3/%v", func(x float64) float64 { return p - x*x*x/q }},
					}[b.R.Intn(4)]
					fs = append(fs, fmt.Sprintf(f.src, p, q))
					vals = append(vals, f.val)
				}
				lo := float64(b.R.Intn(9) - 6)
				hi := lo + float64(1+b.R.Intn(6))
				src := fs[0]
				if n > 1 || b.R.Intn(3) == 0 {
					src = "{" + strings.Join(fs, ", ") + "}"
				}
				src = fmt.Sprintf("Plot[%s, {x, %v, %v}]", src, lo, hi)
				b.Case(src)
				got := s.Run(src)
				if !got.hasHead("Graphics") || len(got.A) < 2 {
					b.Fail("plot", "gives %s", clip(got.String(), 200))
					continue
				}
				want := []gSeries{}
				if !gDraw(got.A[1], &gStyle{a: 1}, &want) || len(want) != n {
					b.Fail("plot", "%d lines for %d functions: %s", len(want), n, clip(got.String(), 200))
					continue
				}
				seen := map[[3]float64]bool{}
				for k, w := range want {
					if len(w.x) < 400 {
						b.Fail("plot", "line %d has %d points", k+1, len(w.x))
						continue
					}
					step := (hi - lo) / float64(len(w.x)-1)
					if math.Abs(w.x[0]-lo) > 1e-9 || w.x[len(w.x)-1] > hi+1e-9 || w.x[len(w.x)-1] < hi-2*step {
						b.Fail("plot-range", "line %d runs from %v to %v", k+1, w.x[0], w.x[len(w.x)-1])
					}
					for j, x := range w.x {
						if j > 0 && (x <= w.x[j-1] || x > w.x[j-1]+2*step) {
							b.Fail("plot-steps", "line %d: x values %v, %v", k+1, w.x[j-1], x)
							break
						}
						if v := vals[k](x); math.Abs(v-w.y[j]) > 1e-6*(1+math.Abs(v)) {
							b.Fail("plot-value", "line %d: at %v the value is %v, not %v", k+1, x, w.y[j], v)
							break
						}
					}
					b.Count("plot points", int64(len(w.x)))
					seen[w.style.rgb] = true
				}
				if len(seen) != n {
					b.Fail("plot-colours", "%d colours for %d functions", len(seen), n)
				}
				b.Seen(src)
			}
		})
	})
}

func r1(r *rand.Rand, n int) int { return 1 + r.Intn(n) }

// countColour counts the pixels of about the colour.
func countColour(img image.Image, col [3]float64) int {
	n := 0
	bd := img.Bounds()
	for y := bd.Min.Y; y < bd.Max.Y; y++ {
		for x := bd.Min.X; x < bd.Max.X; x++ {
			r, g, bl, _ := img.At(x, y).RGBA()
			if math.Abs(float64(r>>8)-255*col[0]) < 6 && math.Abs(float64(g>>8)-255*col[1]) < 6 && math.Abs(float64(bl>>8)-255*col[2]) < 6 {
				n++
			}
		}
	}
	return n
}
