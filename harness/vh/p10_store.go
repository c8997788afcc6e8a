package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// A model of a function's definitions.

type dArg struct {
	kind string // lit, typed, tested, both, plain, struct
	lit  *T
	head string // of a typed blank
	test string
	name string
	sub  *dArg
}

func (a *dArg) src() string {
	switch a.kind {
	case "lit":
		return a.lit.Src()
	case "typed":
		return a.name + "_" + a.head
	case "tested":
		return a.name + "_?" + a.test
	case "both":
		return a.name + "_" + a.head + "?" + a.test
	case "struct":
		return "hh[" + a.sub.src() + "]"
	}
	return a.name + "_"
}

func (a *dArg) match(t *T, env rmEnv) (rmEnv, bool) {
	isType := func() bool {
		switch a.head {
		case "Integer":
			return t.K == kInt
		case "Symbol":
			return t.K == kSym
		case "String":
			return t.K == kStr
		}
		return t.K == kExpr && t.A[0].K == kSym && t.A[0].S == "Global`"+a.head
	}
	isTest := func() bool {
		switch a.test {
		case "EvenQ":
			return t.K == kInt && t.I.Bit(0) == 0
		case "NumberQ":
			return t.K == kInt || t.K == kRat || t.K == kFlt || t.K == kCplx
		}
		return t.K != kExpr // AtomQ
	}
	switch a.kind {
	case "lit":
		return env, same(t, a.lit)
	case "typed":
		if !isType() {
			return env, false
		}
	case "tested":
		if !isTest() {
			return env, false
		}
	case "both":
		if !isType() || !isTest() {
			return env, false
		}
	case "struct":
		if t.K != kExpr || len(t.A) != 2 || !same(t.A[0], sym("hh")) {
			return env, false
		}
		return a.sub.match(t.A[1], env)
	}
	return env.with("Global`"+a.name, t)
}

// moreSpecific: 1 if a is more specific than b, 0 if the same but for names, -1
// if less, 9 if that is not specified.
func (a *dArg) cmp(b *dArg) int {
	rank := map[string]int{"lit": 9, "both": 3, "typed": 2, "tested": 2, "struct": 2, "plain": 1}
	if a.kind == b.kind {
		switch a.kind {
		case "plain":
			return 0
		case "lit":
			return 0
		case "struct":
			return a.sub.cmp(b.sub)
		case "typed":
			if a.head == b.head {
				return 0
			}
			return 9
		case "tested":
			if a.test == b.test {
				return 0
			}
			return 9
		}
		if a.head == b.head && a.test == b.test {
			return 0
		}
		return 9
	}
	x, y := rank[a.kind], rank[b.kind]
	if x == y {
		return 9
	}
	if a.kind == "both" && b.kind != "plain" && b.kind != "lit" && b.head != a.head && b.test != a.test {
		return 9
	}
	if b.kind == "both" && a.kind != "plain" && a.kind != "lit" && b.head != a.head && b.test != a.test {
		return 9
	}
	if (a.kind == "struct" && b.kind == "both") || (b.kind == "struct" && a.kind == "both") {
		return 9
	}
	if x > y {
		return 1
	}
	return -1
}

type dDef struct {
	args  []*dArg
	cond  string // of the right side, or ""
	ctest func(rmEnv) (bool, bool)
	mark  int
	vars  []string
	order int
}

func (d *dDef) lhs(f string) string {
	s := []string{}
	for _, a := range d.args {
		s = append(s, a.src())
	}
	return f + "[" + strings.Join(s, ", ") + "]"
}

func (d *dDef) isLit() bool {
	for _, a := range d.args {
		for x := a; x != nil; x = x.sub {
			if x.kind != "lit" && x.kind != "struct" {
				return false
			}
		}
	}
	return true
}

// cmp as above, for definitions.
func (d *dDef) cmp(o *dDef) int {
	if d.isLit() != o.isLit() {
		if d.isLit() {
			return 1
		}
		return -1
	}
	if (d.cond != "") != (o.cond != "") {
		// Where a constant stands in for a blank, that may count more.
		for _, x := range append(append([]*dArg{}, d.args...), o.args...) {
			for y := x; y != nil; y = y.sub {
				if y.kind == "lit" && !d.isLit() {
					return 9
				}
			}
		}
		if d.cond != "" {
			return 1
		}
		return -1
	}
	if d.cond != "" {
		return 0 // conditional ones: in the order entered
	}
	if len(d.args) != len(o.args) {
		return 9
	}
	res := 0
	for i := range d.args {
		c := d.args[i].cmp(o.args[i])
		if c == 9 || (c != 0 && res != 0 && c != res) {
			return 9
		}
		if c != 0 {
			res = c
		}
	}
	return res
}

type dModel struct {
	defs  []*dDef
	count int
}

func (m *dModel) add(d *dDef) {
	for i, o := range m.defs {
		if o.lhs("f") == d.lhs("f") && o.cond == d.cond {
			d.order = o.order
			m.defs[i] = d
			return
		}
	}
	m.count++
	d.order = m.count
	m.defs = append(m.defs, d)
}

// apply gives the results that are right for f[ts], nil if f[ts] stays.
func (m *dModel) apply(ts []*T) (out []*T, via []*dDef) {
	type hit struct {
		d *dDef
		e rmEnv
	}
	hits := []hit{}
	for _, d := range m.defs {
		if len(d.args) != len(ts) {
			continue
		}
		env, ok := rmEnv{}, true
		for i, a := range d.args {
			if env, ok = a.match(ts[i], env); !ok {
				break
			}
		}
		if ok && d.ctest != nil {
			holds, _ := d.ctest(env)
			ok = holds
		}
		if ok {
			hits = append(hits, hit{d, env})
		}
	}
	for _, h := range hits {
		best := true
		for _, o := range hits {
			c := o.d.cmp(h.d)
			if c == 1 || (c == 0 && o.d.order < h.d.order) {
				best = false
			}
		}
		if best {
			r := fn("res", in(int64(h.d.mark)))
			for _, v := range h.d.vars {
				r.A = append(r.A, h.e["Global`"+v])
			}
			out = append(out, r)
			via = append(via, h.d)
		}
	}
	return
}

func genDArg(r *rand.Rand, depth int) *dArg {
	names := []string{"p", "q", "argument", "n"}
	n := names[r.Intn(len(names))]
	switch k := r.Intn(12); {
	case k < 3:
		return &dArg{kind: "lit", lit: dAtom(r)}
	case k < 6:
		return &dArg{kind: "plain", name: n}
	case k < 8:
		return &dArg{kind: "typed", name: n, head: pick(r, "Integer", "Symbol", "String", "hh")}
	case k == 8:
		return &dArg{kind: "tested", name: n, test: pick(r, "EvenQ", "NumberQ", "AtomQ")}
	case k == 9:
		return &dArg{kind: "both", name: n, head: "Integer", test: pick(r, "EvenQ", "NumberQ")}
	case depth > 0:
		return &dArg{kind: "struct", sub: genDArg(r, depth-1)}
	}
	return &dArg{kind: "plain", name: n}
}

func dAtom(r *rand.Rand) *T {
	return pickT(r, []*T{in(0), in(1), in(2), in(3), sym("a"), sym("b"), str("s"), ratT(big.NewRat(1, 2))})
}

func dTerm(r *rand.Rand) *T {
	switch r.Intn(6) {
	case 0:
		return fn("hh", dAtom(r))
	case 1:
		return fn("hh", fn("hh", dAtom(r)))
	}
	return dAtom(r)
}

func genDDef(r *rand.Rand, mark int) *dDef {
	d := &dDef{mark: mark}
	seen := map[string]bool{}
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		a := genDArg(r, 2)
		// Names are used once.
		inner := a
		for inner.sub != nil {
			inner = inner.sub
		}
		if inner.name != "" {
			for seen[inner.name] {
				inner.name += "x"
			}
			seen[inner.name] = true
			d.vars = append(d.vars, inner.name)
		}
		d.args = append(d.args, a)
	}
	if len(d.vars) > 0 && r.Intn(4) == 0 {
		v := d.vars[0]
		switch r.Intn(3) {
		case 0:
			d.cond = v + " === " + "a"
			d.ctest = func(e rmEnv) (bool, bool) { return same(e["Global`"+v], sym("a")), true }
		case 1:
			d.cond = "FreeQ[" + v + ", b]"
			d.ctest = func(e rmEnv) (bool, bool) {
				free := true
				e["Global`"+v].walk(func(x *T) {
					if same(x, sym("b")) {
						free = false
					}
				})
				return free, true
			}
		default:
			d.cond = "IntegerQ[" + v + "]"
			d.ctest = func(e rmEnv) (bool, bool) { return e["Global`"+v].K == kInt, true }
		}
	}
	return d
}

func init() {
	register("P10", "random histories of definitions of one function (constants, blanks, tests, structures, conditions), redefinitions, Clear and calls against a model; random histories of assignments to variables, elements and lists against a model; DownValues read, written and copied; the store called directly, snapshots and frozen states included; after every step all other definitions compared; distinct = distinct histories", func(c *Ctx) {
		c.Batch("dispatch", c.N(1500, 20), func(b *B) {
			s := sharedSess10()
			f := pick(b.R, "fa", "fb", "fc")
			s.Runf("ClearAll[%s, res, hh]", f)
			m := &dModel{}
			hist := []string{}
			n := 4 + b.R.Intn(12)
			for i := 0; i < n; i++ {
				if b.R.Intn(14) == 0 {
					src := pick(b.R, "Clear", "ClearAll") + "[" + f + "]"
					hist = append(hist, src)
					b.Case(strings.Join(hist, "; "))
					s.Run(src)
					m = &dModel{}
				}
				d := genDDef(b.R, i)
				if len(m.defs) > 0 && b.R.Intn(5) == 0 {
					// Again, with another right side.
					o := m.defs[b.R.Intn(len(m.defs))]
					x := *o
					x.mark = i
					d = &x
				}
				rhs := fmt.Sprintf("res[%d", d.mark)
				for _, v := range d.vars {
					rhs += ", " + v
				}
				rhs += "]"
				op := ":="
				if d.cond != "" {
					rhs += " /; " + d.cond
				} else if b.R.Intn(3) == 0 {
					op = "="
				}
				src := d.lhs(f) + " " + op + " " + rhs
				hist = append(hist, src)
				b.Case(strings.Join(hist, "; "))
				s.Run(src)
				m.add(d)
				b.Count("definitions", 1)
				for k := 0; k < 6; k++ {
					ts := []*T{}
					for j := 0; j < 1+b.R.Intn(2); j++ {
						ts = append(ts, dTerm(b.R))
					}
					if k == 0 {
						ts = nil
						for _, a := range d.args {
							ts = append(ts, dInstance(b.R, a))
						}
					}
					want, _ := m.apply(ts)
					call := fn(f, ts...)
					got := s.Run(call.Src())
					b.Count("calls", 1)
					if len(want) == 0 {
						if !same(got, call) {
							b.Fail("dispatch:none", "%s gives %s, nothing applies", call.Src(), got.Src())
							return
						}
						continue
					}
					ok := false
					ws := []string{}
					for _, w := range want {
						ok = ok || same(got, w)
						ws = append(ws, w.Src())
					}
					if len(want) > 1 {
						b.Count("calls with several right answers", 1)
					}
					if !ok {
						b.Fail("dispatch", "%s gives %s, not %s", call.Src(), got.Src(), strings.Join(ws, " or "))
						return
					}
				}
				dv := s.Runf("DownValues[%s]", f)
				if !dv.hasHead("List") || len(dv.A)-1 != len(m.defs) {
					b.Fail("downvalues:count", "%d definitions, DownValues gives %s", len(m.defs), clip(dv.Src(), 600))
					return
				}
			}
			b.Seen(strings.Join(hist, ";"))
			// The same function under another name, through DownValues.
			s.Runf("ClearAll[fz]; DownValues[fz] = DownValues[%s] /. %s -> fz", f, f)
			for k := 0; k < 8; k++ {
				ts := []*T{}
				for j := 0; j < 1+b.R.Intn(2); j++ {
					ts = append(ts, dTerm(b.R))
				}
				x, y := s.Run(fn(f, ts...).Src()), s.Run(fn("fz", ts...).Src())
				if same(x, fn(f, ts...)) {
					x = fn("fz", ts...)
				}
				if !same(x, y) {
					b.Fail("downvalues:copy", "%s gives %s, under the copied definitions %s", fn(f, ts...).Src(), x.Src(), y.Src())
				}
			}
			s.Runf("Clear[%s]", f)
			if got := s.Runf("{%s[1], %s[hh[a]], %s, DownValues[%s]}", f, f, f, f); !same(got, list(fn(f, in(1)), fn(f, fn("hh", sym("a"))), sym(f), list())) {
				b.Fail("clear", "after Clear: %s", got.Src())
			}
		})

		c.Batch("variables", c.N(900, 20), func(b *B) {
			s := sharedSess10()
			vars := []string{"va", "vb", "vc", "vd[1]", "vd[2]", "vd[va]"}
			s.Run("ClearAll[va, vb, vc, vd]")
			val := map[string]*T{}
			hist := []string{}
			// key names the place that an expression stands for.
			key := func(v string) string {
				if v == "vd[va]" {
					if x := val["va"]; x != nil {
						return "vd[" + x.Src() + "]"
					}
				}
				return v
			}
			get := func(v string) *T {
				if x := val[key(v)]; x != nil {
					return x
				}
				if strings.HasPrefix(v, "vd[") {
					k := key(v)
					a := strings.TrimSuffix(strings.TrimPrefix(k, "vd["), "]")
					return fn("vd", fromEx(expreduce.EvalInterp("Hold["+a+"]", s.es)).A[1])
				}
				return sym(v)
			}
			n := 8 + b.R.Intn(14)
			for i := 0; i < n; i++ {
				v := vars[b.R.Intn(len(vars))]
				x := in(int64(b.R.Intn(7) - 2))
				if b.R.Intn(4) == 0 {
					x = list(in(1), str("t"))
				}
				cur := get(v)
				isInt := val[key(v)] != nil && cur.K == kInt
				isList := val[key(v)] != nil && cur.hasHead("List")
				src, want := "", (*T)(nil)
				upd := map[string]*T{}
				set := func(d int64) *T { return bigT(new(big.Int).Add(cur.I, big.NewInt(d))) }
				switch k := b.R.Intn(16); {
				case k < 3:
					src, want = v+" = "+x.Src(), x
					upd[key(v)] = x
				case k == 3:
					src, want = v+" := "+x.Src(), sys("Null")
					upd[key(v)] = x
				case k == 4 && isInt:
					src, want = v+"++", cur
					upd[key(v)] = set(1)
				case k == 5 && isInt:
					src, want = "++"+v, set(1)
					upd[key(v)] = want
				case k == 6 && isInt:
					src, want = v+"--", cur
					upd[key(v)] = set(-1)
				case k == 7 && isInt:
					src, want = "--"+v, set(-1)
					upd[key(v)] = want
				case k == 8 && isInt:
					src, want = v+" += 5", set(5)
					upd[key(v)] = want
				case k == 9 && isInt:
					src, want = v+" -= 3", set(-3)
					upd[key(v)] = want
				case k == 10 && isList:
					src, want = "AppendTo["+v+", "+x.Src()+"]", list(append(append([]*T{}, cur.A[1:]...), x)...)
					upd[key(v)] = want
				case k == 11 && isList:
					src, want = "PrependTo["+v+", "+x.Src()+"]", list(append([]*T{x}, cur.A[1:]...)...)
					upd[key(v)] = want
				case k == 12:
					src, want = "{va, vb} = {7, "+x.Src()+"}", list(in(7), x)
					upd["va"], upd["vb"] = in(7), x
				case k == 13:
					src, want = "va = vb = "+x.Src(), x
					upd["va"], upd["vb"] = x, x
				case k == 14:
					c := pick(b.R, "va", "vb", "vd")
					src, want = pick(b.R, "Clear", "ClearAll")+"["+c+"]", sys("Null")
					upd[c] = nil
				case k == 15 && val["va"] != nil && val["vb"] != nil:
					src, want = "{va, vb} = {vb, va}", list(val["vb"], val["va"])
					upd["va"], upd["vb"] = val["vb"], val["va"]
				default:
					continue
				}
				hist = append(hist, src)
				b.Case(strings.Join(hist, "; "))
				got := s.Run(src)
				b.Count("assignments", 1)
				if !same(got, want) {
					b.Fail("variables:result", "%s gives %s, want %s", src, got.Src(), want.Src())
					return
				}
				for k, x := range upd {
					if x == nil {
						delete(val, k)
						if k == "vd" {
							for o := range val {
								if strings.HasPrefix(o, "vd[") {
									delete(val, o)
								}
							}
						}
					} else {
						val[k] = x
					}
				}
				for _, v := range vars {
					if got, want := s.Run(v), get(v); !same(got, want) {
						b.Fail("variables", "after %s, %s is %s, want %s", src, v, got.Src(), want.Src())
						return
					}
				}
			}
			b.Seen(strings.Join(hist, ";"))
		})

		// Delayed and immediate right sides.
		c.Batch("delayed", c.N(60, 30), func(b *B) {
			s := sharedSess10()
			x, y := b.R.Intn(50), 50+b.R.Intn(50)
			b.Casef("%d %d", x, y)
			b.Seen(fmt.Sprint(x, y))
			s.Run("ClearAll[da, db, dc, dd, de, df, cnt]; cnt = 0")
			s.Runf("da = %d; db = da + 1; dc := da + 1; dd[t_] := da*t; de[t_] = da*t; df := (cnt++; cnt)", x)
			s.Runf("da = %d", y)
			got := s.Run("{db, dc, dd[2], de[2], df, df, cnt}")
			want := list(in(int64(x+1)), in(int64(y+1)), in(int64(2*y)), in(int64(2*x)), in(1), in(2), in(2))
			if !same(got, want) {
				b.Fail("delayed", "%s, want %s", got.Src(), want.Src())
			}
			// Memoised: each value is worked out once.
			k := 5 + b.R.Intn(15)
			s.Run("ClearAll[mm, cnt]; cnt = 0; mm[0] = 0; mm[1] = 1; mm[t_] := mm[t] = (cnt++; mm[t - 1] + mm[t - 2])")
			fib := func(n int) int64 {
				a, b := int64(0), int64(1)
				for ; n > 0; n-- {
					a, b = b, a+b
				}
				return a
			}
			if got := s.Runf("{mm[%d], cnt, mm[%d], cnt}", k, k-1); !same(got, list(in(fib(k)), in(int64(k-1)), in(fib(k-1)), in(int64(k-1)))) {
				b.Fail("memo", "%s", got.Src())
			}
			// Elements by computed index.
			if got := s.Runf("ClearAll[el]; el[0] = 1; Do[el[j + 1] = 2*el[j], {j, 0, %d}]; {el[1], el[%d], Length[DownValues[el]]}", k, k+1); !same(got, list(in(2), bigT(new(big.Int).Lsh(big.NewInt(1), uint(k+1))), in(int64(k+2)))) {
				b.Fail("computed", "%s", got.Src())
			}
		})

		// The store, called directly.
		c.Batch("api", c.N(250, 20), func(b *B) {
			s := newApiSess(b.R)
			es := s.es
			hist := []string{}
			name := func() string { return "Global`" + pick(b.R, "sa", "sb", "sc", "sd") }
			type st struct {
				own  *T
				elem map[string]*T
				seen bool
			}
			model := map[string]*st{}
			at := func(n string) *st {
				if model[n] == nil {
					model[n] = &st{elem: map[string]*T{}}
				}
				return model[n]
			}
			for _, n := range []string{"sa", "sb", "sc", "sd"} {
				es.Clear("Global`" + n)
				if es.IsDef("Global`" + n) {
					at("Global`" + n).seen = true
				}
			}
			others := defsOf(es, func(k string) bool { return !strings.HasPrefix(k, "Global`s") })
			type snap struct {
				m    expreduceapi.DefinitionMap
				want map[string]string
			}
			snaps := []snap{}
			snapKey := func(m expreduceapi.DefinitionMap) map[string]string {
				out := map[string]string{}
				for _, n := range []string{"sa", "sb", "sc", "sd"} {
					if d, ok := m.Get("Global`" + n); ok {
						for _, dv := range d.Downvalues {
							out[n] += fromEx(dv.Rule).Key() + "\n"
						}
					}
				}
				return out
			}
			for i := 0; i < 20; i++ {
				n := name()
				v := genTerm(b.R, 2)
				switch b.R.Intn(8) {
				case 0, 1:
					hist = append(hist, "Define "+n+" "+v.Src())
					es.Define(sym(n).Ex(), v.Ex())
					at(n).own, at(n).seen = v, true
				case 2, 3:
					k := dAtom(b.R)
					hist = append(hist, "Define "+n+"["+k.Src()+"] "+v.Src())
					es.Define(ex(sym(n), k).Ex(), v.Ex())
					at(n).elem[k.Key()], at(n).seen = v, true
				case 4:
					hist = append(hist, "Clear "+n)
					es.Clear(n)
					at(n).own, at(n).elem = nil, map[string]*T{}
				case 5:
					hist = append(hist, "MarkSeen "+n)
					es.MarkSeen(n)
					at(n).seen = true
				case 6:
					hist = append(hist, "frozen Define "+n)
					es.SetFrozen(true)
					if !es.IsFrozen() {
						b.Fail("api:frozen", "IsFrozen is false after SetFrozen(true)")
					}
					es.Define(sym(n).Ex(), v.Ex())
					es.Define(ex(sym(n), in(1)).Ex(), v.Ex())
					es.SetFrozen(false)
				default:
					hist = append(hist, "snapshot")
					m := es.GetDefinedSnapshot()
					snaps = append(snaps, snap{m, snapKey(m)})
				}
				b.Case(strings.Join(hist, "; "))
				b.Count("store calls", 1)
				for n, m := range model {
					if es.IsDef(n) != m.seen {
						b.Fail("api:isdef", "IsDef[%s] is %v", n, !m.seen)
						return
					}
					got, ok := es.GetSymDef(n)
					if ok != (m.own != nil) || (ok && !same(fromEx(got), m.own)) {
						b.Fail("api:own", "%s has the value %v", n, ok)
						return
					}
					for k := 0; k < 2; k++ {
						a := dAtom(b.R)
						got, ok, rule := es.GetDef(n, ex(sym(n), a).Ex())
						w := m.elem[a.Key()]
						if ok != (w != nil) || (ok && (!same(fromEx(got), w) || rule == nil)) {
							b.Fail("api:elem", "%s[%s]: %v", n, a.Src(), ok)
							return
						}
					}
					sd := es.GetStringDef(n, "dflt")
					ws := "dflt"
					if m.own != nil && m.own.K == kStr {
						ws = m.own.S
					}
					if sd != ws {
						b.Fail("api:stringdef", "GetStringDef[%s] is %q, want %q", n, sd, ws)
					}
					ld := fromEx(es.GetListDef(n))
					wl := list()
					if m.own != nil && m.own.hasHead("List") {
						wl = m.own
					}
					if !same(ld, wl) {
						b.Fail("api:listdef", "GetListDef[%s] is %s, want %s", n, ld.Src(), wl.Src())
					}
				}
				for _, sn := range snaps {
					if fmt.Sprint(snapKey(sn.m)) != fmt.Sprint(sn.want) {
						b.Fail("api:snapshot", "a snapshot changed after %s", hist[len(hist)-1])
						return
					}
				}
			}
			b.Seen(strings.Join(hist, ";"))
			if d := diffDefs(others, defsOf(es, func(k string) bool { return !strings.HasPrefix(k, "Global`s") })); d != "" {
				b.Fail("api:frame", "%s", d)
			}
		})

		// Nothing else changes.
		c.Batch("frame", c.N(60, 20), func(b *B) {
			s := sharedSess10()
			s.Run("ClearAll[fa, res, hh, va]")
			sel := func(k string) bool { return k != "Global`fa" && k != "Global`va" }
			s.Run("fa[1] = 2; va = 3")
			before := defsOf(s.es, sel)
			hist := []string{}
			for i := 0; i < 10; i++ {
				d := genDDef(b.R, i)
				src := d.lhs("fa") + " := res[" + fmt.Sprint(i) + "]"
				if b.R.Intn(4) == 0 {
					src = pick(b.R, "va = 5", "Clear[va]", "ClearAll[fa]", "va = {1}; AppendTo[va, 2]", "Attributes[fa] = {Flat}; ClearAll[fa]", "fa[1] = 2; fa[1]++", "DownValues[fa] = {}")
				}
				hist = append(hist, src)
				b.Case(strings.Join(hist, "; "))
				s.Run(src)
			}
			b.Seen(strings.Join(hist, ";"))
			if d := diffDefs(before, defsOf(s.es, sel)); d != "" {
				b.Fail("frame", "%s", d)
			}
		})
	})
}

// dInstance makes a term that an argument pattern probably matches.
func dInstance(r *rand.Rand, a *dArg) *T {
	switch a.kind {
	case "lit":
		return a.lit
	case "struct":
		return fn("hh", dInstance(r, a.sub))
	case "typed", "both":
		switch a.head {
		case "Integer":
			return in(int64(r.Intn(4)))
		case "Symbol":
			return pickT(r, []*T{sym("a"), sym("b")})
		case "String":
			return str("s")
		}
		return fn("hh", dTerm(r))
	case "tested":
		return in(int64(2 * r.Intn(3)))
	}
	return dTerm(r)
}

var sess10 *Sess

func sharedSess10() *Sess {
	if sess10 == nil {
		sess10 = newSess()
	}
	return sess10
}

var api10 *Sess

func newApiSess(r *rand.Rand) *Sess {
	if api10 == nil {
		api10 = newSess()
	}
	return api10
}
