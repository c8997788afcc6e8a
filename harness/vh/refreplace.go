package main

type rmAmbiguous struct{}

// rrule is a rule with an optional condition on its right-hand side.
type rrule struct {
	lhs, rhs, cond *T
	delayed        bool
}

func (ru rrule) T() *T {
	rhs := ru.rhs
	if ru.cond != nil {
		rhs = sfn("Condition", rhs, ru.cond)
	}
	if ru.delayed {
		return sfn("RuleDelayed", ru.lhs, rhs)
	}
	return sfn("Rule", ru.lhs, rhs)
}

// image is the one result of applying a rule to the whole of t.
func (m *refMatcher) image(t, lhs *T, ru rrule) (*T, bool) {
	m.budget = 20000
	var res *T
	for _, e := range m.match(t, lhs, rmEnv{}) {
		if ru.cond != nil {
			for _, v := range e {
				if v.hasHead("Sequence") {
					panic(rmAmbiguous{})
				}
			}
			if !m.cond(ru.cond, e) {
				continue
			}
		}
		r := subst(ru.rhs, e)
		if res != nil && !same(res, r) {
			panic(rmAmbiguous{})
		}
		if r.hasHead("Sequence") {
			panic(rmAmbiguous{})
		}
		res = r
	}
	return res, res != nil
}

// replaceAll is the definition of ReplaceAll with one rule.
func (m *refMatcher) replaceAll(t *T, ru rrule) *T {
	if r, ok := m.image(t, ru.lhs, ru); ok {
		return r
	}
	if t.K != kExpr {
		return t
	}
	if ru.lhs.K == kExpr && ru.lhs.A[0].K == kSym && t.isHead(ru.lhs.A[0].S) && m.attrs[ru.lhs.A[0].S].flat {
		// Some of the terms of a Flat head.
		st, en := sym("Loose`start"), sym("Loose`end")
		bns := func(v *T) *T { return sfn("Pattern", v, sfn("BlankNullSequence")) }
		h := t.A[0]
		loose := ex(append(append([]*T{h}, ru.lhs.A[1:]...), bns(en))...)
		r2 := ru
		r2.rhs = ex(h, ru.rhs, en)
		if !m.attrs[h.S].orderless {
			loose = ex(append(append([]*T{h, bns(st)}, ru.lhs.A[1:]...), bns(en))...)
			r2.rhs = ex(h, st, ru.rhs, en)
		}
		if r2.cond != nil {
			panic(rmAmbiguous{})
		}
		if r, ok := m.image(t, loose, r2); ok {
			return r
		}
	}
	out := make([]*T, len(t.A))
	for i, a := range t.A {
		out[i] = m.replaceAll(a, ru)
	}
	return ex(out...)
}

func (m *refMatcher) try(f func()) (ok bool) {
	defer func() {
		switch r := recover(); r.(type) {
		case nil:
		case rmAmbiguous, rmTooMany:
			ok = false
		default:
			panic(r)
		}
	}()
	f()
	return true
}
