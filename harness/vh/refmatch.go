package main

import (
	"sort"
	"strings"
)

// A reference matcher: the definition of matching, tried in every way there is.

type rmEnv map[string]*T

func (e rmEnv) with(k string, v *T) (rmEnv, bool) {
	if old, ok := e[k]; ok {
		return e, same(old, v)
	}
	n := rmEnv{}
	for a, b := range e {
		n[a] = b
	}
	n[k] = v
	return n, true
}

func (e rmEnv) key() string {
	ks := []string{}
	for k := range e {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(shortSym(k) + "=" + e[k].Key() + ";")
	}
	return sb.String()
}

// oneSeq makes Sequence[a] a.
func oneSeq(t *T) *T {
	if t.hasHead("Sequence") && len(t.A) == 2 {
		return t.A[1]
	}
	return t
}

// subst puts the values of an environment in a term, splicing sequences.
func subst(t *T, e rmEnv) *T {
	if t.K == kSym {
		if v, ok := e[t.S]; ok {
			return v
		}
		return t
	}
	if t.K != kExpr {
		return t
	}
	out := []*T{}
	for _, a := range t.A {
		v := subst(a, e)
		if v.hasHead("Sequence") {
			out = append(out, v.A[1:]...)
		} else {
			out = append(out, v)
		}
	}
	return ex(out...)
}

type rmAttr struct{ flat, orderless, oneID bool }

type refMatcher struct {
	attrs    map[string]rmAttr // by full name of the head
	defaults map[string]*T
	tests    map[string]func(*T) bool
	cond     func(test *T, e rmEnv) bool
	budget   int
}

type rmTooMany struct{}

func (m *refMatcher) spend() {
	m.budget--
	if m.budget < 0 {
		panic(rmTooMany{})
	}
}

// Solutions gives all environments, or false when there are too many ways.
func (m *refMatcher) Solutions(t, p *T, budget int) (out []rmEnv, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(rmTooMany); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	m.budget = budget
	return m.match(t, p, rmEnv{}), true
}

func (m *refMatcher) match(t, p *T, e rmEnv) []rmEnv {
	m.spend()
	if p.K != kExpr {
		if same(t, p) {
			return []rmEnv{e}
		}
		return nil
	}
	n := len(p.A) - 1
	if p.A[0].K == kSym {
		switch p.A[0].S {
		case "System`Blank", "System`BlankSequence", "System`BlankNullSequence":
			if n == 0 || same(t.head(), p.A[1]) {
				return []rmEnv{e}
			}
			return nil
		case "System`Pattern":
			out := []rmEnv{}
			for _, e2 := range m.match(t, p.A[2], e) {
				if e3, ok := e2.with(p.A[1].S, t); ok {
					out = append(out, e3)
				}
			}
			return out
		case "System`Alternatives":
			out := []rmEnv{}
			for _, q := range p.A[1:] {
				out = append(out, m.match(t, q, e)...)
			}
			return out
		case "System`Except":
			if len(m.match(t, p.A[1], rmEnv{})) > 0 {
				return nil
			}
			if n == 2 {
				return m.match(t, p.A[2], e)
			}
			return []rmEnv{e}
		case "System`PatternTest":
			if !m.tests[p.A[2].S](t) {
				return nil
			}
			return m.match(t, p.A[1], e)
		case "System`Condition":
			out := []rmEnv{}
			for _, e2 := range m.match(t, p.A[1], e) {
				if m.cond(p.A[2], e2) {
					out = append(out, e2)
				}
			}
			return out
		case "System`HoldPattern":
			return m.match(t, p.A[1], e)
		}
	}
	// Parts of numbers.
	if t.K == kRat {
		t = sfn("Rational", bigT(t.I), bigT(t.D))
	} else if t.K == kCplx {
		t = sfn("Complex", t.A[0], t.A[1])
	}
	ph := p.A[0]
	if ph.K == kSym {
		at := m.attrs[ph.S]
		if at.oneID && m.defaults[ph.S] != nil && !t.isHead(ph.S) {
			for _, q := range p.A[1:] {
				if q.hasHead("Optional") {
					t = ex(ph, t)
					break
				}
			}
		}
	}
	if t.K != kExpr {
		return nil
	}
	if ph.K == kSym && same(t.A[0], ph) {
		return m.seq(t.A[1:], p.A[1:], e, m.attrs[ph.S], ph)
	}
	return m.seq(t.A, p.A, e, rmAttr{}, nil)
}

type rmElem struct {
	min, max int
	core     *T // for every element
	test     func(*T) bool
	name     string
	opt      bool
	def      *T
	implied  bool
}

const rmInf = 1 << 30

func (m *refMatcher) elem(p *T, at rmAttr, head *T) rmElem {
	el := rmElem{min: 1, max: 1}
	q := p
	if q.hasHead("Optional") && len(q.A) >= 2 {
		el.opt = true
		if len(q.A) == 3 {
			el.def = q.A[2]
		} else if head != nil {
			el.def = m.defaults[head.S]
		}
		if el.def != nil {
			el.min = 0
		}
		q = q.A[1]
	}
	if q.hasHead("PatternTest") {
		el.test = m.tests[q.A[2].S]
		q = q.A[1]
	}
	if q.hasHead("Pattern") {
		el.name = q.A[1].S
		q = q.A[2]
	}
	el.core = q
	switch {
	case q.hasHead("Blank") && at.flat:
		el.implied = true
		if el.opt && el.test != nil {
			break
		}
		el.max = rmInf
		if len(q.A) == 2 && !el.opt {
			if same(q.A[1], head) {
				el.min = 2
				el.core = sfn("Blank")
			} else {
				el.max = 1
			}
		}
	case el.opt:
	case q.hasHead("BlankSequence"):
		el.max = rmInf
	case q.hasHead("BlankNullSequence"):
		el.min, el.max = 0, rmInf
	case q.hasHead("Repeated"):
		el.core = q.A[1]
		el.max = rmInf
		if len(q.A) == 3 {
			k := int(q.A[2].A[1].I.Int64())
			el.min, el.max = k, k
		}
	case q.hasHead("RepeatedNull"):
		el.core = q.A[1]
		el.min, el.max = 0, rmInf
	}
	return el
}

func (m *refMatcher) seq(ts, ps []*T, e rmEnv, at rmAttr, head *T) []rmEnv {
	els := make([]rmElem, len(ps))
	for i, p := range ps {
		els[i] = m.elem(p, at, head)
	}
	out := []rmEnv{}
	used := make([]bool, len(ts))
	var rec func(i, pos int, e rmEnv)
	assign := func(el rmElem, idx []int, e rmEnv) []rmEnv {
		m.spend()
		envs := []rmEnv{e}
		vals := []*T{}
		for _, k := range idx {
			vals = append(vals, ts[k])
			next := []rmEnv{}
			for _, e2 := range envs {
				next = append(next, m.match(ts[k], el.core, e2)...)
			}
			envs = next
			if len(envs) == 0 {
				return nil
			}
		}
		whole := func() *T {
			if len(vals) == 1 {
				return vals[0]
			}
			if el.opt && len(vals) == 0 {
				return el.def
			}
			if el.implied {
				return ex(append([]*T{head}, vals...)...)
			}
			return sfn("Sequence", vals...)
		}
		if el.test != nil {
			if el.implied {
				if len(vals) > 0 && !el.test(whole()) {
					return nil
				}
			} else {
				for _, v := range vals {
					if !el.test(v) {
						return nil
					}
				}
			}
		}
		if el.name == "" {
			return envs
		}
		res := []rmEnv{}
		for _, e2 := range envs {
			if e3, ok := e2.with(el.name, whole()); ok {
				res = append(res, e3)
			}
		}
		return res
	}
	rec = func(i, pos int, e rmEnv) {
		m.spend()
		if i == len(els) {
			if !at.orderless && pos != len(ts) {
				return
			}
			for _, u := range used {
				if at.orderless && !u {
					return
				}
			}
			out = append(out, e)
			return
		}
		el := els[i]
		if !at.orderless {
			for k := el.min; k <= el.max && pos+k <= len(ts); k++ {
				idx := []int{}
				for j := 0; j < k; j++ {
					idx = append(idx, pos+j)
				}
				for _, e2 := range assign(el, idx, e) {
					rec(i+1, pos+k, e2)
				}
			}
			return
		}
		var choose func(from int, idx []int)
		choose = func(from int, idx []int) {
			if len(idx) >= el.min {
				for _, k := range idx {
					used[k] = true
				}
				for _, e2 := range assign(el, idx, e) {
					rec(i+1, 0, e2)
				}
				for _, k := range idx {
					used[k] = false
				}
			}
			if len(idx) == el.max {
				return
			}
			for k := from; k < len(ts); k++ {
				if !used[k] {
					choose(k+1, append(append([]int{}, idx...), k))
				}
			}
		}
		choose(0, nil)
	}
	rec(0, 0, e)
	return out
}
