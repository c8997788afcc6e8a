package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// A reference interpreter for a small language of scoping and control flow.
// Arithmetic is add, mul and lt on integers; ev[k] is an event with value k.

type refFunc struct {
	param string
	body  *T
}

type refInt struct {
	own    map[string]*T
	funcs  map[string]refFunc
	uniq   int
	steps  int
	events []string
	sown   *T
}

type refThrow struct{ v *T }
type refLimit struct{}

const refSetup = `add[a_Integer, b_Integer] := a + b; mul[a_Integer, b_Integer] := a*b; lt[a_Integer, b_Integer] := a < b; lt[a_, b_] := False; ev[k_Integer] := (evlog = {evlog, k}; k); evlog = {}`

func newRefInt() *refInt { return &refInt{own: map[string]*T{}, funcs: map[string]refFunc{}} }

// locals lists the names a scoping construct binds.
func refLocals(t *T) []string {
	if t.K != kExpr || len(t.A) < 3 {
		return nil
	}
	switch {
	case t.hasHead("Function"):
		if t.A[1].K == kSym {
			return []string{t.A[1].S}
		}
	case t.hasHead("Module"), t.hasHead("With"):
		out := []string{}
		for _, l := range t.A[1].A[1:] {
			if l.K == kSym {
				out = append(out, l.S)
			} else {
				out = append(out, l.A[1].S)
			}
		}
		return out
	}
	return nil
}

func refFree(t *T, name string) bool {
	if t.K == kSym {
		return t.S == name
	}
	if t.K != kExpr {
		return false
	}
	bound := false
	for _, l := range refLocals(t) {
		bound = bound || l == name
	}
	if bound {
		if t.hasHead("Function") {
			return false
		}
		for _, l := range t.A[1].A[1:] {
			if l.K == kExpr && refFree(l.A[2], name) {
				return true
			}
		}
		return false
	}
	for _, a := range t.A {
		if refFree(a, name) {
			return true
		}
	}
	return false
}

// refSubst replaces free names by values without capture.
func (m *refInt) refSubst(t *T, vals map[string]*T) *T {
	if t.K == kSym {
		if v, ok := vals[t.S]; ok {
			return v
		}
		return t
	}
	if t.K != kExpr || len(vals) == 0 {
		return t
	}
	if ls := refLocals(t); ls != nil {
		inner := map[string]*T{}
		for k, v := range vals {
			inner[k] = v
		}
		for _, l := range ls {
			delete(inner, l)
		}
		ren := map[string]*T{}
		for _, l := range ls {
			for k, v := range inner {
				if refFree(v, l) && refFree(t, k) {
					m.uniq++
					ren[l] = &T{K: kSym, S: fmt.Sprintf("%s$r%d", l, m.uniq)}
				}
			}
		}
		name := func(s *T) *T {
			if r, ok := ren[s.S]; ok {
				return r
			}
			return s
		}
		var decl *T
		if t.hasHead("Function") {
			decl = name(t.A[1])
		} else {
			decl = list()
			for _, l := range t.A[1].A[1:] {
				if l.K == kSym {
					decl.A = append(decl.A, name(l))
				} else {
					decl.A = append(decl.A, ex(l.A[0], name(l.A[1]), m.refSubst(l.A[2], vals)))
				}
			}
		}
		body := t.A[2]
		if len(ren) > 0 {
			body = m.refSubst(body, ren)
		}
		return ex(t.A[0], decl, m.refSubst(body, inner))
	}
	out := &T{K: kExpr}
	for _, a := range t.A {
		out.A = append(out.A, m.refSubst(a, vals))
	}
	return out
}

func refSlots(t *T, args []*T) *T {
	if t.hasHead("Slot") && len(t.A) == 2 && t.A[1].K == kInt {
		if i := t.A[1].I.Int64(); i >= 1 && i <= int64(len(args)) {
			return args[i-1]
		}
		return t
	}
	if t.K != kExpr || t.hasHead("Function") && len(t.A) == 2 {
		return t
	}
	out := &T{K: kExpr}
	for _, a := range t.A {
		out.A = append(out.A, refSlots(a, args))
	}
	return out
}

func isTrueT(t *T) bool  { return t.K == kSym && t.S == "System`True" }
func isFalseT(t *T) bool { return t.K == kSym && t.S == "System`False" }

func (m *refInt) block(name string, f func()) {
	old, had := m.own[name]
	defer func() {
		if had {
			m.own[name] = old
		} else {
			delete(m.own, name)
		}
	}()
	f()
}

func (m *refInt) call(f *T, args ...*T) *T { return m.eval(ex(append([]*T{f}, args...)...)) }

func isExit(t *T) bool { return t.hasHead("Return") || t.hasHead("Break") }

func (m *refInt) eval(t *T) *T {
	if m.steps++; m.steps > 4000 {
		panic(refLimit{})
	}
	if t.K == kSym {
		if v, ok := m.own[t.S]; ok {
			return m.eval(v)
		}
		return t
	}
	if t.K != kExpr {
		return t
	}
	h := m.eval(t.A[0])
	null := sys("Null")
	hs := ""
	if h.K == kSym {
		hs = strings.TrimPrefix(strings.TrimPrefix(h.S, "System`"), "Global`")
	}
	a := t.A[1:]
	switch hs {
	case "Hold", "Function":
		return ex(append([]*T{h}, a...)...)
	case "CompoundExpression":
		v := null
		for _, x := range a {
			if v = m.eval(x); isExit(v) {
				return v
			}
		}
		return v
	case "If":
		c := m.eval(a[0])
		switch {
		case isTrueT(c):
			return m.eval(a[1])
		case isFalseT(c) && len(a) > 2:
			return m.eval(a[2])
		case isFalseT(c):
			return null
		}
		return ex(append([]*T{h, c}, a[1:]...)...)
	case "Which":
		for i := 0; i+1 < len(a); i += 2 {
			c := m.eval(a[i])
			if isTrueT(c) {
				return m.eval(a[i+1])
			}
			if !isFalseT(c) {
				return ex(append([]*T{h, c}, a[i+1:]...)...)
			}
		}
		return null
	case "Switch":
		v := m.eval(a[0])
		for i := 1; i+1 < len(a); i += 2 {
			p := m.eval(a[i])
			if p.hasHead("Blank") && len(p.A) == 1 || same(p, v) || p.hasHead("Blank") && same(p.A[1], v.head()) {
				return m.eval(a[i+1])
			}
		}
		return ex(append([]*T{h, v}, a[1:]...)...)
	case "And", "Or":
		stop, zero := isFalseT, boolT(true)
		if hs == "Or" {
			stop, zero = isTrueT, boolT(false)
		}
		rest := []*T{h}
		for _, x := range a {
			v := m.eval(x)
			if stop(v) {
				return v
			}
			if !isTrueT(v) && !isFalseT(v) {
				rest = append(rest, v)
			}
		}
		if len(rest) == 1 {
			return zero
		}
		if len(rest) == 2 {
			return rest[1]
		}
		return ex(rest...)
	case "While", "For":
		if hs == "For" {
			m.eval(a[0])
			a = []*T{a[1], sfn("CompoundExpression", a[3], a[2])}
		}
		for isTrueT(m.eval(a[0])) {
			v := m.eval(a[1])
			if v.hasHead("Return") {
				if len(v.A) > 1 {
					return v.A[1]
				}
				return null
			}
			if v.hasHead("Break") {
				break
			}
		}
		return null
	case "Do", "Table":
		type iter struct {
			name string
			vals []*T
		}
		its := []iter{}
		for _, it := range a[1:] {
			x := iter{}
			if it.hasHead("List") {
				x.name = it.A[1].S
				ps := []*T{}
				for _, p := range it.A[2:] {
					ps = append(ps, m.eval(p))
				}
				lo, hi, st := int64(1), int64(0), int64(1)
				switch {
				case ps[0].hasHead("List"):
					x.vals = ps[0].A[1:]
				case len(ps) == 1:
					hi = ps[0].I.Int64()
				default:
					lo, hi = ps[0].I.Int64(), ps[1].I.Int64()
					if len(ps) > 2 {
						st = ps[2].I.Int64()
					}
				}
				for v := lo; st > 0 && v <= hi || st < 0 && v >= hi; v += st {
					x.vals = append(x.vals, in(v))
				}
			} else {
				for n := m.eval(it).I.Int64(); n > 0; n-- {
					x.vals = append(x.vals, nil)
				}
			}
			its = append(its, x)
		}
		out := list()
		res := null
		done := false
		var loop func(int)
		loop = func(k int) {
			if k < len(its) {
				for _, v := range its[k].vals {
					if v != nil {
						m.own[its[k].name] = v
					}
					if loop(k + 1); done {
						return
					}
				}
				return
			}
			x := m.eval(a[0])
			if hs == "Do" && isExit(x) {
				if done = true; len(x.A) > 1 {
					res = x.A[1]
				}
				return
			}
			out.A = append(out.A, x)
		}
		var enter func(int)
		enter = func(k int) {
			if k == len(its) {
				loop(0)
				return
			}
			m.block(its[k].name, func() { enter(k + 1) })
		}
		enter(0)
		if hs == "Do" {
			return m.eval(res)
		}
		return m.eval(out)
	case "Module":
		vals := map[string]*T{}
		type init struct {
			name string
			v    *T
		}
		inits := []init{}
		for _, l := range a[0].A[1:] {
			n := l
			if l.K == kExpr {
				n = l.A[1]
			}
			m.uniq++
			s := &T{K: kSym, S: fmt.Sprintf("%s$%d", n.S, m.uniq)}
			vals[n.S] = s
			if l.K == kExpr {
				inits = append(inits, init{s.S, m.eval(l.A[2])})
			}
		}
		for _, i := range inits {
			m.own[i.name] = i.v
		}
		return m.eval(m.refSubst(a[1], vals))
	case "With":
		vals := map[string]*T{}
		for _, l := range a[0].A[1:] {
			vals[l.A[1].S] = m.eval(l.A[2])
		}
		return m.eval(m.refSubst(a[1], vals))
	case "Block":
		var res *T
		names, vals := []string{}, []*T{}
		for _, l := range a[0].A[1:] {
			if l.K == kSym {
				names, vals = append(names, l.S), append(vals, nil)
			} else {
				names, vals = append(names, l.A[1].S), append(vals, m.eval(l.A[2]))
			}
		}
		var rec func(int)
		rec = func(i int) {
			if i < len(names) {
				m.block(names[i], func() { delete(m.own, names[i]); rec(i + 1) })
				return
			}
			for j, n := range names {
				if vals[j] != nil && !(vals[j].K == kSym && vals[j].S == n) {
					m.own[n] = vals[j]
				}
			}
			res = m.eval(a[1])
		}
		rec(0)
		if isExit(res) {
			return res
		}
		return m.eval(res)
	case "Set":
		v := m.eval(a[1])
		m.own[a[0].S] = v
		return v
	case "SetDelayed":
		if a[0].K == kSym {
			m.own[a[0].S] = a[1]
		} else {
			m.funcs[a[0].A[0].S] = refFunc{a[0].A[1].A[1].S, a[1]}
		}
		return null
	case "Catch":
		return m.catch(a[0])
	case "Reap":
		outer := m.sown
		defer func() { m.sown = outer }()
		m.sown = list()
		v := m.eval(a[0])
		return list(v, list(m.sown))
	case "Increment", "PreIncrement", "AddTo":
		old := m.own[a[0].S]
		d := in(1)
		if hs == "AddTo" {
			d = m.eval(a[1])
		}
		m.own[a[0].S] = m.call(sym("add"), old, d)
		if hs == "Increment" {
			return old
		}
		return m.own[a[0].S]
	}
	args := make([]*T, len(a))
	for i, x := range a {
		args[i] = m.eval(x)
	}
	res := ex(append([]*T{h}, args...)...)
	ints := func(n int) bool {
		if len(args) != n {
			return false
		}
		for _, x := range args {
			if x.K != kInt {
				return false
			}
		}
		return true
	}
	switch hs {
	case "Sow":
		if m.sown != nil {
			m.sown.A = append(m.sown.A, args[0])
		}
		return args[0]
	case "Throw":
		if len(args) == 1 {
			panic(refThrow{args[0]})
		}
	case "add", "mul":
		if ints(2) {
			r := in(0)
			if hs == "add" {
				r.I.Add(args[0].I, args[1].I)
			} else {
				r.I.Mul(args[0].I, args[1].I)
			}
			return r
		}
	case "lt":
		if ints(2) {
			return boolT(args[0].I.Cmp(args[1].I) < 0)
		}
		if len(args) == 2 {
			return boolT(false)
		}
	case "ev":
		if ints(1) {
			m.events = append(m.events, args[0].I.String())
			return args[0]
		}
	case "Not":
		if isTrueT(args[0]) || isFalseT(args[0]) {
			return boolT(isFalseT(args[0]))
		}
	case "Map":
		out := ex(args[1].A[0])
		for _, x := range args[1].A[1:] {
			out.A = append(out.A, ex(args[0], x))
		}
		return m.eval(out)
	case "Scan":
		for _, x := range args[1].A[1:] {
			m.call(args[0], x)
		}
		return null
	case "Fold", "FoldList":
		out := list(args[1])
		v := args[1]
		for _, x := range args[2].A[1:] {
			v = m.call(args[0], v, x)
			out.A = append(out.A, v)
		}
		if hs == "Fold" {
			return v
		}
		return out
	case "Nest", "NestList":
		out := list(args[1])
		v := args[1]
		for i := int64(0); i < args[2].I.Int64(); i++ {
			v = m.call(args[0], v)
			out.A = append(out.A, v)
		}
		if hs == "Nest" {
			return v
		}
		return out
	case "NestWhile", "NestWhileList":
		v := args[1]
		out := list(v)
		for isTrueT(m.call(args[2], v)) {
			v = m.call(args[0], v)
			out.A = append(out.A, v)
		}
		if hs == "NestWhile" {
			return v
		}
		return out
	case "MapIndexed":
		out := list()
		for i, x := range args[1].A[1:] {
			out.A = append(out.A, m.call(args[0], x, list(in(int64(i+1)))))
		}
		return out
	case "Array":
		out := list()
		for i := int64(1); i <= args[1].I.Int64(); i++ {
			out.A = append(out.A, m.call(args[0], in(i)))
		}
		return out
	case "Select":
		out := list()
		for _, x := range args[0].A[1:] {
			if isTrueT(m.call(args[1], x)) {
				out.A = append(out.A, x)
			}
		}
		return out
	case "Apply":
		return m.call(args[0], args[1].A[1:]...)
	}
	if h.K == kSym {
		if f, ok := m.funcs[h.S]; ok && len(args) == 1 {
			v := m.eval(m.refSubst(f.body, map[string]*T{f.param: args[0]}))
			if v.hasHead("Return") {
				if len(v.A) > 1 {
					return v.A[1]
				}
				return null
			}
			return v
		}
	}
	if h.hasHead("Function") {
		if len(h.A) == 2 {
			return m.eval(refSlots(h.A[1], args))
		}
		if len(args) > 0 {
			return m.eval(m.refSubst(h.A[2], map[string]*T{h.A[1].S: args[0]}))
		}
	}
	return res
}

func (m *refInt) catch(t *T) (res *T) {
	defer func() {
		if r := recover(); r != nil {
			th, ok := r.(refThrow)
			if !ok {
				panic(r)
			}
			res = m.eval(th.v)
		}
	}()
	return m.eval(t)
}

// run evaluates t, and reports whether it stayed within the limits.
func (m *refInt) run(t *T) (res *T, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refLimit); is {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	m.steps = 0
	return m.eval(t), true
}

var localRE = regexp.MustCompile(`(\$+r?[0-9]*)+$`)

// alphaKey identifies terms up to the names of locals.
func alphaKey(t *T) string {
	var sb strings.Builder
	seen := map[string]int{}
	free := func(s string) string {
		b := localRE.ReplaceAllString(s, "")
		if b == s || strings.HasSuffix(b, "`") {
			return s
		}
		if _, ok := seen[s]; !ok {
			seen[s] = len(seen)
		}
		return fmt.Sprintf("%s$%d", b, seen[s])
	}
	var walk func(t *T, env map[string]string, depth int)
	walk = func(t *T, env map[string]string, depth int) {
		switch {
		case t.K == kSym:
			if b, ok := env[t.S]; ok {
				sb.WriteString(b)
			} else {
				sb.WriteString(free(t.S))
			}
			return
		case t.K != kExpr:
			sb.WriteString(t.Key())
			return
		}
		e2 := env
		if ls := refLocals(t); ls != nil {
			e2 = map[string]string{}
			for k, v := range env {
				e2[k] = v
			}
			for i, l := range ls {
				e2[l] = fmt.Sprintf("#%d.%d", depth, i)
			}
			if t.hasHead("Function") {
				sb.WriteString("Function[")
			} else {
				walk(t.A[0], env, depth)
				sb.WriteString("[{")
				for _, l := range t.A[1].A[1:] {
					if l.K == kSym {
						sb.WriteString("_")
					} else {
						sb.WriteString("=")
						walk(l.A[2], env, depth)
					}
					sb.WriteString(",")
				}
				sb.WriteString("}")
			}
			walk(t.A[2], e2, depth+1)
			sb.WriteString("]")
			return
		}
		for i, a := range t.A {
			walk(a, env, depth)
			if i == 0 {
				sb.WriteString("[")
			} else {
				sb.WriteString(",")
			}
		}
		sb.WriteString("]")
	}
	walk(t, nil, 0)
	return sb.String()
}

// refGen generates programs of the language.
type refGen struct {
	r       *rand.Rand
	scoping bool // more of it, or more control flow
	read    []string
	write   []string
	lfuncs  []string
	fns     []string
	noSet   int
	event   int
	pat     int
	iter    int
	throws  int // how many Catch are around
}

func (g *refGen) ev() *T {
	g.event++
	return fn("ev", in(int64(g.event%97)))
}

func (g *refGen) scope(read, write []string, f func()) {
	r, w, l := g.read, g.write, g.lfuncs
	g.read = append(append([]string{}, g.read...), read...)
	g.write = append(append([]string{}, g.write...), write...)
	f()
	g.read, g.write, g.lfuncs = r, w, l
}

// shadow removes names from what may be assigned.
func (g *refGen) shadowed(names []string, f func()) {
	w := g.write
	g.write = nil
	for _, x := range w {
		ok := true
		for _, n := range names {
			ok = ok && n != x
		}
		if ok {
			g.write = append(g.write, x)
		}
	}
	f()
	g.write = w
}

func (g *refGen) leaf() *T {
	switch g.r.Intn(8) {
	case 0, 1:
		return in(int64(g.r.Intn(7) - 1))
	case 2:
		return g.ev()
	case 3:
		return sym(pick(g.r, "x", "y"))
	}
	return sym(g.read[g.r.Intn(len(g.read))])
}

func (g *refGen) cond(d int) *T {
	if g.r.Intn(12) == 0 {
		return fn("lt", sym("x"), g.expr(d-1))
	}
	if d > 0 && g.r.Intn(4) == 0 {
		switch g.r.Intn(3) {
		case 0:
			return sfn("Not", g.cond(d-1))
		default:
			c := sfn(pick(g.r, "And", "Or"))
			for k := 1 + g.r.Intn(3); k > 0; k-- {
				c.A = append(c.A, g.cond(d-1))
			}
			return c
		}
	}
	return fn("lt", g.expr(d-1), g.expr(d-1))
}

func (g *refGen) locals() []string {
	n := 1
	if g.r.Intn(3) == 0 {
		n = 2
	}
	p := g.r.Perm(4)
	out := []string{}
	for _, i := range p[:n] {
		out = append(out, []string{"v", "w", "u", "x"}[i])
	}
	return out
}

// fun is a pure function of one argument (or two, with slots).
func (g *refGen) fun(d, n int) *T {
	if g.r.Intn(4) == 0 && len(g.fns) > 0 && n == 1 {
		return sym(g.fns[g.r.Intn(len(g.fns))])
	}
	if n == 1 && g.r.Intn(2) == 0 {
		v := pick(g.r, "v", "w", "u", "y")
		var body *T
		g.shadowed([]string{v}, func() { g.scope([]string{v}, nil, func() { body = g.expr(d - 1) }) })
		return sfn("Function", sym(v), body)
	}
	body := g.expr(d - 1)
	for i := 1; i <= n; i++ {
		body = fn(pick(g.r, "add", "h1", "add"), body, sfn("Slot", in(int64(i))))
	}
	return sfn("Function", body)
}

// closure is a pure function that is kept and called later.
func (g *refGen) closure(d int) *T {
	t := g.throws
	g.throws = 0
	defer func() { g.throws = t }()
	fns := g.fns
	g.fns = nil
	f := g.fun(d, 1)
	g.fns = fns
	return f
}

func (g *refGen) lst(d int) *T {
	l := list()
	for k := g.r.Intn(4); k > 0; k-- {
		l.A = append(l.A, g.expr(d-1))
	}
	return l
}

func (g *refGen) scoped(d int, body func(int) *T) *T {
	switch g.r.Intn(3) {
	case 0: // Module
		names := g.locals()
		decl := list()
		for _, n := range names {
			decl.A = append(decl.A, sfn("Set", sym(n), g.expr(d-1)))
		}
		var b *T
		g.scope(names, names, func() {
			if g.r.Intn(5) == 0 {
				// A closure over the locals, and over what is around.
				g.pat++
				cl := fmt.Sprintf("cl%d", g.pat)
				decl.A = append(decl.A, sym(cl))
				c := sfn("Set", sym(cl), g.closure(d))
				g.lfuncs = append(append([]string{}, g.lfuncs...), cl)
				b = sfn("CompoundExpression", c, body(d-1))
				return
			}
			if g.r.Intn(5) == 0 {
				// A local function.
				g.pat++
				lf, q := fmt.Sprintf("lf%d", g.pat), fmt.Sprintf("q%d", g.pat)
				decl.A = append(decl.A, sym(lf))
				var fb *T
				g.shadowed([]string{q}, func() { g.scope([]string{q}, nil, func() { fb = g.expr(d - 1) }) })
				g.lfuncs = append(append([]string{}, g.lfuncs...), lf)
				b = sfn("CompoundExpression", sfn("SetDelayed", fn(lf, sfn("Pattern", sym(q), sfn("Blank"))), fb), body(d-1))
				return
			}
			b = body(d - 1)
		})
		return sfn("Module", decl, b)
	case 1:
		names := g.locals()
		decl := list()
		for _, n := range names {
			decl.A = append(decl.A, sfn("Set", sym(n), g.expr(d-1)))
		}
		var b *T
		g.shadowed(names, func() { g.scope(names, nil, func() { b = body(d - 1) }) })
		return sfn("With", decl, b)
	}
	names := []string{pick(g.r, "ga", "gb", "gc")}
	if g.r.Intn(3) == 0 {
		names = []string{"ga", pick(g.r, "gb", "gc")}
	}
	decl := list()
	for _, n := range names {
		decl.A = append(decl.A, sfn("Set", sym(n), g.expr(d-1)))
	}
	return sfn("Block", decl, body(d-1))
}

func (g *refGen) loopIter() (*T, string) {
	g.iter++
	if g.r.Intn(6) == 0 {
		return pickT(g.r, []*T{in(int64(g.r.Intn(4))), fn("add", in(int64(g.r.Intn(2))), in(int64(g.r.Intn(2))))}), ""
	}
	v := pick(g.r, "gi", "gj", "gi", "gj", "ga")
	if g.r.Intn(3) == 0 {
		return list(sym(v), list(in(int64(g.r.Intn(5))), in(7), in(int64(g.r.Intn(5))))), v
	}
	if g.r.Intn(4) == 0 {
		it := list(sym(v), in(int64(g.r.Intn(4)-1)), in(int64(g.r.Intn(5))))
		if g.r.Intn(2) == 0 {
			it.A = append(it.A, in(int64(g.r.Intn(3)+1)))
			if g.r.Intn(2) == 0 {
				it.A[2], it.A[3], it.A[4] = it.A[3], it.A[2], in(-1)
			}
		}
		return it, v
	}
	return list(sym(v), in(int64(g.r.Intn(4)))), v
}

// expr is an expression whose value is not a Return or Break.
func (g *refGen) expr(d int) *T {
	if d <= 0 {
		return g.leaf()
	}
	k := g.r.Intn(35)
	if g.throws > 1 && g.r.Intn(8) == 0 {
		return sfn("Throw", g.expr(d-1))
	}
	if g.scoping && g.r.Intn(3) == 0 {
		k = 10 + g.r.Intn(5)
	}
	switch k {
	case 0, 1, 2:
		return g.leaf()
	case 3, 4:
		return fn(pick(g.r, "add", "mul", "add"), g.expr(d-1), g.expr(d-1))
	case 5:
		return fn(pick(g.r, "h1", "h2"), g.expr(d-1), g.expr(d-1))
	case 6:
		return g.lst(d)
	case 7:
		e := sfn("If", g.cond(d-1), g.expr(d-1), g.expr(d-1))
		if g.r.Intn(4) == 0 {
			e.A = e.A[:3]
		}
		return e
	case 8:
		if len(g.write) > 0 {
			return sfn("Set", sym(g.write[g.r.Intn(len(g.write))]), g.expr(d-1))
		}
	case 9:
		return g.seq(d, false, false)
	case 10, 11, 12:
		return g.scoped(d, func(d int) *T {
			if g.r.Intn(2) == 0 {
				return g.seq(d, false, false)
			}
			return g.expr(d)
		})
	case 13:
		return ex(g.fun(d, 1), g.expr(d-1))
	case 14:
		return ex(g.fun(d, 2), g.expr(d-1), g.expr(d-1))
	case 15:
		if len(g.fns) > 0 {
			return ex(sym(g.fns[g.r.Intn(len(g.fns))]), g.expr(d-1))
		}
	case 16:
		if len(g.lfuncs) > 0 {
			return ex(sym(g.lfuncs[g.r.Intn(len(g.lfuncs))]), g.expr(d-1))
		}
	case 17:
		g.throws++
		e := sfn("Catch", g.expr(d-1))
		g.throws--
		return e
	case 18:
		if g.throws > 0 && g.r.Intn(2) == 0 {
			return sfn("Throw", g.expr(d-1))
		}
	case 19:
		it, v := g.loopIter()
		var b *T
		if v == "" {
			b = g.expr(d - 1)
		} else {
			g.scope([]string{v}, nil, func() { b = g.expr(d - 1) })
		}
		return sfn("Table", b, it)
	case 20:
		return g.loop(d)
	case 21:
		w := sfn("Which")
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			w.A = append(w.A, g.cond(d-1), g.expr(d-1))
		}
		return w
	case 22:
		w := sfn("Switch", g.expr(d-1))
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			p := pickT(g.r, []*T{in(int64(g.r.Intn(4))), sfn("Blank"), sfn("Blank", sys("Integer")), sym("x"), in(2)})
			w.A = append(w.A, p, g.expr(d-1))
		}
		return w
	case 23:
		return sfn("Map", g.fun(d, 1), g.lst(d))
	case 24:
		return sfn(pick(g.r, "Fold", "FoldList"), g.fun(d, 2), g.expr(d-1), g.lst(d))
	case 25:
		return sfn(pick(g.r, "Nest", "NestList"), g.fun(d, 1), g.expr(d-1), in(int64(g.r.Intn(4))))
	case 26:
		if g.r.Intn(2) == 0 {
			return sfn("Array", g.fun(d, 1), in(int64(g.r.Intn(4))))
		}
		return sfn("Scan", g.fun(d, 1), g.lst(d))
	case 27:
		v := pick(g.r, "v", "w")
		var c *T
		g.shadowed([]string{v}, func() { g.scope([]string{v}, nil, func() { c = g.cond(d - 1) }) })
		return sfn("Select", g.lst(d), sfn("Function", sym(v), c))
	case 28:
		return sfn("NestWhile", sfn("Function", fn("add", sfn("Slot", in(1)), in(int64(1+g.r.Intn(3))))), in(int64(g.r.Intn(4))), sfn("Function", sfn("CompoundExpression", g.expr(d-2), fn("lt", sfn("Slot", in(1)), in(int64(g.r.Intn(8)))))))
	case 30:
		it, v := g.loopIter()
		it2, v2 := g.loopIter()
		var b *T
		rd := []string{}
		for _, x := range []string{v, v2} {
			if x != "" {
				rd = append(rd, x)
			}
		}
		if v == "" || v2 == "" || v == v2 || v == "ga" || v2 == "ga" {
			return g.leaf()
		}
		g.scope(rd, nil, func() { b = g.seq(d, true, true) })
		return sfn("Do", b, it, it2)
	case 31:
		return sfn("NestWhileList", sfn("Function", fn("add", sfn("Slot", in(1)), in(int64(1+g.r.Intn(3))))), in(int64(g.r.Intn(4))), sfn("Function", sfn("CompoundExpression", g.expr(d-2), fn("lt", sfn("Slot", in(1)), in(int64(g.r.Intn(8)))))))
	case 33:
		return sfn("Sow", g.expr(d-1))
	case 34:
		return sfn("Reap", g.expr(d-1))
	case 32:
		return sfn("MapIndexed", g.fun(d, 2), g.lst(d))
	case 29:
		return sfn("Apply", g.fun(d, 2), list(g.expr(d-1), g.expr(d-1)))
	}
	return g.leaf()
}

// seq is a compound expression; its statements may leave the function or the
// loop around.
func (g *refGen) seq(d int, inFn, inLoop bool) *T {
	c := sfn("CompoundExpression")
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		c.A = append(c.A, g.stmt(d-1, inFn, inLoop))
	}
	c.A = append(c.A, g.expr(d-1))
	return c
}

func (g *refGen) stmt(d int, inFn, inLoop bool) *T {
	if inFn || inLoop {
		exit := func() *T {
			if inLoop && (!inFn || g.r.Intn(2) == 0) {
				return sfn("Break")
			}
			if g.r.Intn(5) == 0 {
				return sfn("Return")
			}
			return sfn("Return", g.expr(d-1))
		}
		switch g.r.Intn(5) {
		case 0, 1:
			x := exit()
			if g.r.Intn(2) == 0 {
				x = sfn("CompoundExpression", g.expr(d-1), x)
			}
			return sfn("If", g.cond(d-1), x)
		case 2:
			return g.scoped(d, func(d int) *T { return g.seq(d, inFn, inLoop) })
		}
	}
	if g.r.Intn(3) == 0 {
		return g.loop(d)
	}
	if len(g.write) > 0 && g.r.Intn(2) == 0 {
		return sfn("Set", sym(g.write[g.r.Intn(len(g.write))]), g.expr(d-1))
	}
	return g.expr(d)
}

func (g *refGen) loop(d int) *T {
	if g.r.Intn(2) == 0 {
		it, v := g.loopIter()
		var b *T
		rd := []string{}
		if v != "" {
			rd = append(rd, v)
		}
		g.scope(rd, nil, func() { b = g.seq(d, true, true) })
		return sfn("Do", b, it)
	}
	n := in(int64(g.r.Intn(5)))
	k := fmt.Sprintf("k%d", g.r.Intn(3))
	var b *T
	g.scope([]string{k}, nil, func() { b = g.seq(d, true, true) })
	inc := pickT(g.r, []*T{sfn("Increment", sym(k)), sfn("PreIncrement", sym(k)), sfn("Set", sym(k), fn("add", sym(k), in(1))), sfn("AddTo", sym(k), in(1))})
	c := fn("lt", sym(k), n)
	if g.r.Intn(3) == 0 {
		c = sfn("And", c, g.cond(d-1))
	}
	if g.r.Intn(2) == 0 {
		return sfn("Module", list(sym(k)), sfn("For", sfn("Set", sym(k), in(0)), c, inc, b))
	}
	return sfn("Module", list(sfn("Set", sym(k), in(0))), sfn("While", c, sfn("CompoundExpression", inc, b)))
}

// refTry runs a history, and says how the system and the reference differ.
// The last input is checked only if the ones before it agree.
func refTry(id string, hist []*T, r *rand.Rand, count func(events int)) (key, desc string, ok bool) {
	s := keptSess(id, refSetup)
	m := newRefInt()
	s.Run("ClearAll[ga, gb, gc, gd, gi, gj, f1, f2, f3, x, y, v, w, u]")
	for _, t := range hist {
		m.events = nil
		want, ok := m.run(t)
		if !ok {
			return "", "", false
		}
		s.Run("evlog = {}")
		var got *T
		if r.Intn(2) == 0 {
			got = s.Run(t.Src())
		} else {
			got = s.EvalT(t)
		}
		if count != nil {
			count(len(m.events))
		}
		if alphaKey(got) != alphaKey(want) {
			return "result", fmt.Sprintf("%s gives %s, not %s", t.Src(), clip(got.Src(), 400), clip(want.Src(), 400)), true
		}
		log := numsRE.FindAllString(s.Run("evlog").Src(), -1)
		if strings.Join(log, " ") != strings.Join(m.events, " ") {
			return "events", fmt.Sprintf("%s: the events are %s, not %s", t.Src(), strings.Join(log, " "), strings.Join(m.events, " ")), true
		}
		for _, n := range []string{"ga", "gb", "gc", "gi", "gj", "x", "y", "v", "w", "u"} {
			want := sym(n)
			if v, ok := m.own["Global`"+n]; ok {
				want = v
			}
			if got := s.Run(n); alphaKey(got) != alphaKey(want) {
				return "state", fmt.Sprintf("after %s, %s is %s, not %s", t.Src(), n, clip(got.Src(), 300), clip(want.Src(), 300)), true
			}
		}
	}
	return "", "", true
}

var numsRE = regexp.MustCompile(`[0-9]+`)

// refShrink looks for a smaller history that fails in the same way.
func refShrink(id, key string, hist []*T, budget int) []*T {
	fails := func(h []*T) (f bool) {
		defer func() {
			if recover() != nil {
				f = false
			}
		}()
		if budget--; budget < 0 {
			return false
		}
		k, _, _ := refTry(id, h, rand.New(rand.NewSource(1)), nil)
		return k == key
	}
	for again := true; again && budget > 0; {
		again = false
		for i := len(hist) - 2; i >= 0; i-- {
			h := append(append([]*T{}, hist[:i]...), hist[i+1:]...)
			if fails(h) {
				hist, again = h, true
			}
		}
		for i := range hist {
			try := func(t *T) bool {
				h := append([]*T{}, hist...)
				h[i] = t
				if fails(h) {
					hist, again = h, true
					return true
				}
				return false
			}
			for done := false; !done; {
				done = true
				for _, t := range refSmaller(hist[i]) {
					if try(t) {
						done = false
						break
					}
				}
			}
		}
	}
	return hist
}

// refSmaller lists smaller variants of t that are still programs.
func refSmaller(t *T) []*T {
	if t.K != kExpr || t.hasHead("Slot") || t.hasHead("Pattern") {
		return nil
	}
	out := []*T{}
	fixed := t.hasHead("SetDelayed") || t.hasHead("Function") || t.hasHead("List")
	if !fixed {
		out = append(out, in(0))
	}
	for i, a := range t.A {
		if i == 0 && a.K == kSym {
			continue
		}
		decl := i == 1 && (t.hasHead("Module") || t.hasHead("With") || t.hasHead("Block"))
		name := i == 1 && len(t.A) > 2 && (t.hasHead("Set") || t.hasHead("SetDelayed") || t.hasHead("Increment") || t.hasHead("AddTo") || t.hasHead("Function"))
		iter := i > 1 && (t.hasHead("Do") || t.hasHead("Table"))
		if name || iter {
			continue
		}
		if i > 0 && !fixed && !decl && !a.hasHead("List") && !a.hasHead("Function") && !a.hasHead("Slot") {
			out = append(out, a)
		}
		if i > 0 && len(t.A) > 2 && (t.hasHead("CompoundExpression") || t.hasHead("List")) {
			out = append(out, &T{K: kExpr, A: append(append([]*T{}, t.A[:i]...), t.A[i+1:]...)})
		}
		for _, s := range refSmaller(a) {
			if decl && len(s.A) != len(a.A) {
				continue
			}
			if decl {
				ok := true
				for k := 1; k < len(s.A); k++ {
					ok = ok && (s.A[k].K == kSym || s.A[k].hasHead("Set"))
				}
				if !ok {
					continue
				}
			}
			c := &T{K: kExpr, A: append([]*T{}, t.A...)}
			c.A[i] = s
			out = append(out, c)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].size() < out[j].size() })
	return out
}

// refCheck runs histories of inputs against the reference interpreter.
func refCheck(b *B, id string, scoping bool) {
	g := &refGen{r: b.R, scoping: scoping}
	hist := []*T{}
	for _, n := range []string{"ga", "gb", "gc"} {
		hist = append(hist, sfn("Set", sym(n), in(int64(b.R.Intn(6)))))
	}
	base := []string{"ga", "gb", "gc"}
	for i := 1; i <= 2; i++ {
		f := fmt.Sprintf("f%d", i)
		p := fmt.Sprintf("p%d", i)
		g.read, g.write = append([]string{p}, base...), base
		body := g.seq(3, true, false)
		hist = append(hist, sfn("SetDelayed", fn(f, sfn("Pattern", sym(p), sfn("Blank"))), body))
		g.fns = append(g.fns, f)
	}
	for k := 0; k < 5; k++ {
		g.read, g.write = base, base
		g.throws = 1
		t := sfn("Catch", g.expr(3+b.R.Intn(2)))
		g.throws = 0
		hist = append(hist, t)
	}
	src := func() string {
		out := []string{}
		for _, t := range hist {
			out = append(out, t.Src())
		}
		return strings.Join(out, ";; ")
	}
	b.Case(src())
	n := 0
	key, desc, _ := refTry(id, hist, b.R, func(events int) {
		n++
		b.Count("inputs", 1)
		b.Count("events", int64(events))
		if n > 5 {
			b.Seen(hist[n-1].Src())
		}
	})
	if key == "" {
		return
	}
	hist = refShrink(id, key, hist[:n], 3000)
	_, small, _ := refTry(id, hist, rand.New(rand.NewSource(1)), nil)
	b.Case(src())
	if small == "" {
		small = desc
	}
	b.Fail(key, "%s", small)
}
