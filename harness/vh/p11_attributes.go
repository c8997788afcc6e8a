package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

const setup11 = "ClearAll[ev]; ev[k_Integer] := (evlog = Append[evlog, k]; k)"

var attrNames = []string{"Constant", "Flat", "HoldAll", "HoldAllComplete", "HoldFirst", "HoldRest", "Listable", "Locked", "NHoldAll", "NHoldFirst", "NHoldRest", "NumericFunction", "OneIdentity", "Orderless", "Protected", "ReadProtected", "SequenceHold", "Stub", "Temporary"}

// attrModel evaluates terms by the attributes alone.
type attrModel struct {
	attrs map[string]map[string]bool
	own   map[string]*T
	body  map[string]string // heads that are defined as f[a___] := wrapper[a]
	log   []string
	steps int
}

func (m *attrModel) has(h *T, a string) bool { return h.K == kSym && m.attrs[h.S][a] }

func splice(args []*T, head string, each func(*T) *T) []*T {
	out := []*T{}
	for _, a := range args {
		if a.hasHead(head) {
			for _, x := range a.A[1:] {
				out = append(out, each(x))
			}
		} else {
			out = append(out, a)
		}
	}
	return out
}

func idT(t *T) *T { return t }

func (m *attrModel) eval(t *T) *T {
	if m.steps++; m.steps > 20000 {
		return t
	}
	if t.K == kSym {
		if v, ok := m.own[t.S]; ok {
			return m.eval(v)
		}
		return t
	}
	if t.K != kExpr {
		return t
	}
	for {
		h := m.eval(t.A[0])
		hold := func(i int) bool {
			return m.has(h, "HoldAll") || m.has(h, "HoldAllComplete") || i == 0 && m.has(h, "HoldFirst") || i > 0 && m.has(h, "HoldRest")
		}
		args := []*T{}
		for i, a := range t.A[1:] {
			if !hold(i) {
				a = m.eval(a)
			}
			args = append(args, a)
		}
		complete := m.has(h, "HoldAllComplete")
		if !complete && !m.has(h, "SequenceHold") {
			args = splice(args, "Sequence", idT)
		}
		if !complete {
			args = splice(args, "Evaluate", m.eval)
			args = splice(args, "Unevaluated", idT)
		}
		if m.has(h, "Flat") {
			out := []*T{}
			for _, a := range args {
				if a.K == kExpr && same(a.A[0], h) {
					out = append(out, a.A[1:]...)
				} else {
					out = append(out, a)
				}
			}
			args = out
		}
		if m.has(h, "Orderless") {
			sort.SliceStable(args, func(i, j int) bool { return cmpT(args[i], args[j]) < 0 })
		}
		var next *T
		if m.has(h, "Listable") {
			n := -1
			for _, a := range args {
				if a.hasHead("List") {
					if n >= 0 && n != len(a.A)-1 {
						n = -2
						break
					}
					n = len(a.A) - 1
				}
			}
			if n >= 0 {
				next = list()
				for k := 0; k < n; k++ {
					e := ex(h)
					for _, a := range args {
						if a.hasHead("List") {
							a = a.A[k+1]
						}
						e.A = append(e.A, a)
					}
					next.A = append(next.A, e)
				}
			}
		}
		if next == nil {
			next = ex(append([]*T{h}, args...)...)
			if h.K == kSym {
				if h.S == "Global`ev" && len(args) == 1 && args[0].K == kInt {
					m.log = append(m.log, args[0].I.String())
					return args[0]
				}
				if w, ok := m.body[h.S]; ok {
					next = sfn(w, args...)
				}
			}
		}
		if same(next, t) {
			return t
		}
		t = next
		if m.steps++; m.steps > 20000 {
			return t
		}
	}
}

type attrGen struct {
	r     *rand.Rand
	m     *attrModel
	heads []string
	held  bool
	event int
}

func (g *attrGen) atom() *T {
	switch g.r.Intn(9) {
	case 0:
		return in(int64(g.r.Intn(5)))
	case 1:
		return sym(pick(g.r, "va", "vb", "vc"))
	case 2:
		return str(pick(g.r, "s", "t"))
	case 3:
		return flt(float64(g.r.Intn(4)) + 0.5)
	case 4, 5, 6:
		g.event++
		return fn("ev", in(int64(g.event)))
	}
	return sym(pick(g.r, "a", "b", "c", "d"))
}

// args makes the arguments of a call of h.
func (g *attrGen) args(h *T, depth int) []*T {
	n := g.r.Intn(5)
	out := []*T{}
	defined := h.K == kSym && g.m.body[h.S] != ""
	complete := g.m.has(h, "HoldAllComplete")
	seqHold := g.m.has(h, "SequenceHold")
	for i := 0; i < n; i++ {
		x := g.term(depth - 1)
		k := g.r.Intn(14)
		if complete && defined {
			k = 9
		}
		switch k {
		case 0, 1:
			if defined && seqHold {
				break
			}
			ys := []*T{}
			for j := g.r.Intn(4); j > 0; j-- {
				ys = append(ys, g.term(depth-1))
			}
			x = sfn("Sequence", ys...)
		case 2, 3:
			x = sfn("Evaluate", x)
			if g.r.Intn(4) == 0 {
				x.A = append(x.A, g.term(depth-1))
			}
		case 4:
			held := g.m.has(h, "HoldAll") || i == 0 && g.m.has(h, "HoldFirst") || i > 0 && g.m.has(h, "HoldRest")
			if defined && !held || complete {
				x = sfn("Unevaluated", x)
			}
		case 5, 6:
			ys := []*T{}
			for j := g.r.Intn(4); j > 0; j-- {
				ys = append(ys, g.term(depth-1))
			}
			x = list(ys...)
		case 7:
			x = ex(append([]*T{h}, g.args2(depth-1)...)...)
		}
		out = append(out, x)
	}
	return out
}

func (g *attrGen) args2(depth int) []*T {
	out := []*T{}
	for j := g.r.Intn(4); j > 0; j-- {
		out = append(out, g.term(depth-1))
	}
	return out
}

func (g *attrGen) term(depth int) *T {
	if depth <= 0 || g.r.Intn(3) == 0 {
		return g.atom()
	}
	if g.r.Intn(5) == 0 {
		return list(g.args2(depth)...)
	}
	h := sym(pick(g.r, g.heads...))
	if g.r.Intn(10) == 0 {
		h = ex(h, in(1)) // a compound head
	}
	return ex(append([]*T{h}, g.args(h, depth)...)...)
}

func attrsOf(set map[string]bool) *T {
	ns := []string{}
	for a, ok := range set {
		if ok {
			ns = append(ns, a)
		}
	}
	sort.Strings(ns)
	l := list()
	for _, n := range ns {
		l.A = append(l.A, sys(n))
	}
	return l
}

// attrStruct compares the interpreter's record with the names.
func attrStruct(a expreduceapi.Attributes) map[string]bool {
	return map[string]bool{"Orderless": a.Orderless, "Flat": a.Flat, "OneIdentity": a.OneIdentity, "Listable": a.Listable, "Constant": a.Constant, "NumericFunction": a.NumericFunction, "Protected": a.Protected, "Locked": a.Locked, "ReadProtected": a.ReadProtected, "HoldFirst": a.HoldFirst, "HoldRest": a.HoldRest, "HoldAll": a.HoldAll, "HoldAllComplete": a.HoldAllComplete, "NHoldFirst": a.NHoldFirst, "NHoldRest": a.NHoldRest, "NHoldAll": a.NHoldAll, "SequenceHold": a.SequenceHold, "Temporary": a.Temporary, "Stub": a.Stub}
}

// setAttrs makes one random change of the attributes of names, and of the model.
func setAttrs(r *rand.Rand, m *attrModel, names []string, active []string) string {
	as := []string{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(3) == 0 {
			as = append(as, attrNames[r.Intn(len(attrNames))])
		} else {
			as = append(as, pick(r, active...))
		}
	}
	ss := []string{names[r.Intn(len(names))]}
	for r.Intn(4) == 0 {
		ss = append(ss, names[r.Intn(len(names))])
	}
	lst := func(x []string) string {
		if len(x) == 1 && r.Intn(2) == 0 {
			return x[0]
		}
		return "{" + strings.Join(x, ", ") + "}"
	}
	op := pick(r, "SetAttributes", "SetAttributes", "ClearAttributes", "=")
	if op == "=" {
		ss = ss[:1]
	}
	for _, n := range ss {
		set := m.attrs["Global`"+n]
		if set == nil || op == "=" {
			set = map[string]bool{}
			m.attrs["Global`"+n] = set
		}
		for _, a := range as {
			set[a] = op != "ClearAttributes"
		}
	}
	if op == "=" {
		return "Attributes[" + ss[0] + "] = {" + strings.Join(as, ", ") + "}"
	}
	return op + "[" + lst(ss) + ", " + lst(as) + "]"
}

func init() {
	register("P11", "random sets of attributes given to heads (undefined ones, defined ones, aliases) by random sequences of SetAttributes, ClearAttributes and assignments; random nested calls with side effects, Sequence, Evaluate, Unevaluated, lists and nested calls of the same head, against an evaluator that knows only the attributes; every subset of the attribute names through the Go interface; distinct = distinct attribute sets and calls", func(c *Ctx) {
		props["P11"].HangUndecided = false
		c.Batch("evaluate", c.N(6000, 20), func(b *B) {
			s := keptSess("P11", setup11)
			m := &attrModel{attrs: map[string]map[string]bool{}, own: map[string]*T{}, body: map[string]string{}}
			m.attrs["System`Hold"] = map[string]bool{"HoldAll": true}
			m.attrs["System`Unevaluated"] = map[string]bool{"HoldAllComplete": true}
			s.Run("ClearAll[fa, fb, fc, fd, va, vb, vc, ga]")
			g := &attrGen{r: b.R, m: m, heads: []string{"fa", "fb", "fc", "fd"}}
			active := []string{"Flat", "HoldAll", "HoldAllComplete", "HoldFirst", "HoldRest", "Listable", "Orderless", "SequenceHold"}
			hist := []string{}
			do := func(src string) {
				hist = append(hist, src)
				b.Case(strings.Join(hist, "; "))
				s.Run(src)
			}
			defs := func() {
				if b.R.Intn(2) == 0 && m.body["Global`fd"] == "" {
					m.body["Global`fd"] = "Hold"
					do("fd[a___] := Hold[a]")
				}
			}
			if b.R.Intn(2) == 0 {
				defs()
			}
			for k := b.R.Intn(4) + 1; k > 0; k-- {
				do(setAttrs(b.R, m, []string{"fa", "fb", "fc", "fd"}, active))
			}
			// Flat functions with definitions match parts of their arguments: not here.
			if m.attrs["Global`fd"]["Flat"] {
				m.attrs["Global`fd"]["Flat"] = false
				do("ClearAttributes[fd, Flat]")
			}
			defs()
			for _, v := range []string{"va", "vb"} {
				if b.R.Intn(3) > 0 {
					x := pickT(b.R, []*T{in(7), str("val"), sym("zz"), list(in(1), sym("b")), sfn("Sequence", in(8), in(9)), fn("fa", in(1), in(2))})
					m.own["Global`"+v] = x
					do(v + " := " + x.Src())
				}
			}
			if b.R.Intn(3) == 0 {
				m.own["Global`ga"] = sym("fa")
				do("ga = fa")
				g.heads = append(g.heads, "ga")
			}
			// The record of the attributes.
			for _, f := range []string{"fa", "fb", "fc", "fd"} {
				want := attrsOf(m.attrs["Global`"+f])
				if got := s.Run("Attributes[" + f + "]"); !same(got, want) {
					b.Fail("attributes:list", "Attributes[%s] = %s, not %s", f, got.Src(), want.Src())
				}
			}
			for k := 0; k < 4; k++ {
				h := sym(pick(b.R, g.heads...))
				real := h
				if v, ok := m.own[h.S]; ok {
					real = v
				}
				t := ex(append([]*T{h}, g.args(real, 2+b.R.Intn(2))...)...)
				m.log, m.steps = nil, 0
				want := m.eval(t)
				if m.steps > 20000 {
					continue
				}
				b.Casef("%s; %s", strings.Join(hist, "; "), t.Src())
				s.Run("evlog = {}")
				var got *T
				if b.R.Intn(2) == 0 {
					got = s.Run(t.Src())
				} else {
					got = s.EvalT(t)
				}
				b.Count("calls", 1)
				b.Count("side effects", int64(len(m.log)))
				b.Seen(fmt.Sprintf("%s|%s", attrsOf(m.attrs[real.S]).Src(), t.Src()))
				if !same(got, want) {
					b.Fail("evaluate", "%s gives %s, not %s", t.Src(), got.Src(), want.Src())
					return
				}
				if lg := s.Run("evlog"); strings.Join(m.log, ", ") != strings.Trim(lg.Src(), "{}") {
					b.Fail("effects", "%s evaluates the arguments %s, not %v", t.Src(), lg.Src(), m.log)
					return
				}
			}
		})

		c.Batch("structs", c.N(3000, 20), func(b *B) {
			r := b.R
			want := map[string]bool{}
			names := []string{}
			p := []int{2, 2, 2, 8, 3}[r.Intn(5)]
			if b.Idx < len(attrNames) {
				names = append(names, attrNames[b.Idx])
				want[attrNames[b.Idx]] = true
			} else if b.Idx < 2*len(attrNames) {
				for i, n := range attrNames {
					if i != b.Idx-len(attrNames) {
						names = append(names, n)
						want[n] = true
					}
				}
			} else {
				for _, n := range attrNames {
					if r.Intn(p) == 0 {
						names = append(names, n)
						want[n] = true
					}
				}
				if r.Intn(3) == 0 {
					names = append(names, pick(r, "Bogus", "flat", "", "Hold", "HoldAllcomplete"))
				}
				if len(names) > 0 && r.Intn(3) == 0 {
					names = append(names, names[r.Intn(len(names))])
				}
				r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			}
			b.Casef("attributes %v", names)
			in := append([]string{}, names...)
			a := atoms.StringsToAttributes(in)
			b.Count("subsets of the attributes", 1)
			b.Seen(fmt.Sprint(names))
			for n, on := range attrStruct(a) {
				if on != want[n] {
					b.Fail("structs:set", "StringsToAttributes(%v): %s is %v", names, n, on)
				}
			}
			if fmt.Sprint(in) != fmt.Sprint(names) {
				b.Fail("structs:input", "StringsToAttributes(%v) changes its argument", names)
			}
			before := a
			back := atoms.AttrsToStrings(&a)
			ws := []string{}
			for n := range want {
				ws = append(ws, n)
			}
			sort.Strings(ws)
			if strings.Join(back, ",") != strings.Join(ws, ",") {
				b.Fail("structs:strings", "AttrsToStrings of %v gives %v", ws, back)
			}
			if a != before {
				b.Fail("structs:input", "AttrsToStrings changes its argument")
			}
			wl := attrsOf(want)
			if got := fromEx(atoms.AttrsToSymList(&a)); !same(got, wl) {
				b.Fail("structs:symlist", "AttrsToSymList of %v gives %s", ws, got.Src())
			}
			// Through a definition map, and the interpreter.
			s := keptSess("P11", setup11)
			name := "System`qa" + fmt.Sprint(r.Intn(3))
			d := expreduceapi.Def{Attributes: a}
			s.es.GetDefinedMap().Set(name, d)
			if got := atoms.NewSymbol(name).Attrs(s.es.GetDefinedMap()); got != a {
				b.Fail("structs:map", "Symbol.Attrs gives %+v, not %+v", got, a)
			}
			if got := atoms.NewSymbol("Nowhere`x").Attrs(s.es.GetDefinedMap()); got != (expreduceapi.Attributes{}) {
				b.Fail("structs:undefined", "an unknown symbol has attributes %+v", got)
			}
			if got := s.Run("Attributes[" + name + "]"); !same(got, wl) {
				b.Fail("structs:attributes", "Attributes[%s] gives %s, not %s", name, got.Src(), wl.Src())
			}
		})
	})
}
