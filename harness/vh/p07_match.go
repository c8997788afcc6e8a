package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/matcher"
)

// sutSolutions goes through a match iterator.
func sutSolutions(s *Sess, t, p *T, max int) (out []rmEnv, ok bool) {
	mi, cont := matcher.NewMatchIter(t.Ex(), p.Ex(), matcher.EmptyPD(), s.es)
	for n := 0; cont; n++ {
		if n > max {
			return out, false
		}
		isMatch, pm, done := mi.Next()
		cont = !done
		if !isMatch {
			continue
		}
		e := rmEnv{}
		if pm != nil {
			l := fromEx(pm.Expression())
			for _, rule := range l.A[1:] {
				e[rule.A[1].S] = oneSeq(rule.A[2])
			}
		}
		out = append(out, e)
	}
	return out, true
}

func envSet(es []rmEnv) map[string]bool {
	out := map[string]bool{}
	for _, e := range es {
		out[e.key()] = true
	}
	return out
}

func setDiff(a, b map[string]bool) string {
	out := []string{}
	for k := range a {
		if !b[k] {
			out = append(out, "{"+k+"}")
		}
	}
	sort.Strings(out)
	n := len(out)
	if n > 3 {
		out = out[:3]
	}
	return fmt.Sprintf("%d: %s", n, strings.Join(out, " "))
}

func init() {
	register("P07", "random terms against patterns made by generalising them (and against unrelated ones): the set of bindings that the match iterator goes through equals that of a brute-force reference matcher; MatchQ, ReplaceList and definitions agree with the same reference after evaluation; sequence patterns bind the shortest leading sequences first; distinct = distinct (term, pattern) pairs", func(c *Ctx) {
		vars := list(list(sym("x")), list(sym("y")), list(sym("z")))
		c.Batch("iterator", c.N(480, 20), func(b *B) {
			s := newSess()
			s.Run(pgSetup)
			m := newRefMatcher()
			for i := 0; i < 400; i++ {
				g := newPatGen(b.R)
				g.sysOps = b.R.Intn(3) == 0
				t := g.term(1 + b.R.Intn(3))
				g.noCond = !g.sysOps && b.R.Intn(2) == 0
				norm := func() {
					if !g.noCond {
						t = s.EvalT(t)
					}
				}
				norm()
				p := g.single(t, 3, false)
				switch b.R.Intn(8) {
				case 0:
					t = g.term(1 + b.R.Intn(3))
				case 1:
					t = s.EvalT(mutate(b.R, t))
				}
				norm()
				b.Casef("%s against %s", t, p)
				ref, ok := m.Solutions(t, p, 60000)
				if !ok {
					b.Count("skipped_large", 1)
					continue
				}
				te, pe := t.Ex(), p.Ex()
				isMatch, pd := matcher.IsMatchQ(te, pe, matcher.EmptyPD(), s.es)
				if !same(fromEx(te), t) || !same(fromEx(pe), p) {
					b.Fail("input", "matching changed the term to %s or the pattern to %s", fromEx(te), fromEx(pe))
					continue
				}
				if isMatch != (len(ref) > 0) {
					b.Fail("match", "IsMatchQ gives %v, %d ways to match %v", isMatch, len(ref), firstEnv(ref))
					continue
				}
				sut, ok := sutSolutions(s, t, p, 200000)
				if !ok {
					b.Count("skipped_large", 1)
					continue
				}
				rs, ss := envSet(ref), envSet(sut)
				if d := setDiff(ss, rs); !strings.HasPrefix(d, "0") {
					b.Fail("unsound", "bindings that do not match: %s", d)
					continue
				}
				if d := setDiff(rs, ss); !strings.HasPrefix(d, "0") {
					b.Fail("incomplete", "ways to match that are not found: %s", d)
					continue
				}
				if isMatch && pd != nil {
					e := rmEnv{}
					for _, rule := range fromEx(pd.Expression()).A[1:] {
						e[rule.A[1].S] = oneSeq(rule.A[2])
					}
					if !rs[e.key()] {
						b.Fail("unsound", "IsMatchQ binds %s", e.key())
						continue
					}
				}
				b.Count("ways", int64(len(rs)))
				if len(ref) > 0 {
					b.Count("matches", 1)
				}
				b.Seen(t.Key() + " : " + p.Key())
			}
		})
		c.Batch("order", c.N(16, 10), func(b *B) {
			s := newSess()
			for i := 0; i < 300; i++ {
				// Only sequence patterns: the first lengths grow first.
				n := b.R.Intn(6)
				ts := []*T{}
				for ; n > 0; n-- {
					ts = append(ts, pickT(b.R, []*T{sym("a"), sym("b"), in(1)}))
				}
				k := 1 + b.R.Intn(4)
				ps := []*T{}
				names := []*T{}
				for j := 0; j < k; j++ {
					v := sym(fmt.Sprintf("s%d", j))
					names = append(names, list(v))
					ps = append(ps, sfn("Pattern", v, sfn(pick(b.R, "Blank", "BlankSequence", "BlankNullSequence"))))
				}
				t, p := fn("f", ts...), fn("f", ps...)
				b.Casef("ReplaceList[%s, %s]", t, p)
				ref, _ := newRefMatcher().Solutions(t, p, 100000)
				want := []*T{}
				for _, e := range ref {
					want = append(want, subst(list(names...), e))
				}
				got := s.EvalT(sfn("ReplaceList", t, sfn("Rule", p, list(names...))))
				if !same(got, list(want...)) {
					b.Fail("order", "got  %s\nwant %s", got, list(want...))
				}
				b.Seen(t.Key() + p.Key())
			}
		})
		c.Batch("language", c.N(200, 20), func(b *B) {
			s := newSess()
			s.Run(pgSetup)
			m := newRefMatcher()
			for i := 0; i < 200; i++ {
				g := newPatGen(b.R)
				t := s.EvalT(g.term(1 + b.R.Intn(3)))
				p := s.EvalT(g.single(t, 3, false))
				if b.R.Intn(8) == 0 {
					t = s.EvalT(g.term(1 + b.R.Intn(3)))
				}
				b.Casef("%s against %s", t, p)
				ref, ok := m.Solutions(t, p, 60000)
				if !ok {
					b.Count("skipped_large", 1)
					continue
				}
				if got := s.EvalT(sfn("MatchQ", t, p)); !same(got, boolT(len(ref) > 0)) {
					b.Fail("MatchQ", "MatchQ gives %s, %d ways to match", got, len(ref))
					continue
				}
				want := map[string]bool{}
				for _, e := range ref {
					want[subst(vars, e).Key()] = true
				}
				got := s.EvalT(sfn("ReplaceList", t, sfn("Rule", p, vars)))
				if !got.hasHead("List") {
					b.Fail("ReplaceList", "ReplaceList gives %s", got)
					continue
				}
				gs := map[string]bool{}
				for _, x := range got.A[1:] {
					gs[x.Key()] = true
				}
				if a, d := setDiff(gs, want), setDiff(want, gs); a[0] != '0' || d[0] != '0' {
					b.Fail("ReplaceList", "ReplaceList has more: %s\nand misses: %s", a, d)
					continue
				}
				// As a definition.
				s.Run("ClearAll[dd]")
				s.EvalT(sfn("SetDelayed", fn("dd", p), vars))
				r := s.EvalT(fn("dd", t))
				rd := sfn("Sequence")
				// The definition is for the sequence of arguments {p}.
				if seqLike(p) {
					continue
				}
				_ = rd
				if len(ref) == 0 {
					if !same(r, fn("dd", t)) {
						b.Fail("definition", "a definition that does not match gives %s", r)
					}
				} else if !want[r.Key()] {
					b.Fail("definition", "the definition gives %s", r)
				}
				b.Seen(t.Key() + " : " + p.Key())
			}
		})
	})
}

// seqLike: the pattern means something else as an argument.
func seqLike(p *T) bool {
	for _, h := range []string{"Optional", "Repeated", "RepeatedNull", "BlankSequence", "BlankNullSequence"} {
		if p.hasHead("" + h) {
			return true
		}
	}
	return false
}

func firstEnv(es []rmEnv) string {
	if len(es) == 0 {
		return ""
	}
	return es[0].key()
}
