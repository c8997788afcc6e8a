package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// docRun is one pass through the examples of a builtin in a session.
type docRun struct {
	g    docGroup
	mode string
	ctx  string // the context its variables live in
	suf  string // what is appended to the names of its variables
	next int
}

// docShared are names the builtin definitions and the examples share.
var docShared = map[string]bool{"Private`normSol": true, "Private`Piecewise": true}

// docPrefix is the context of the variables in the corpus.
const docPrefix = "Private`"

// rename moves the variables of t from context old to the context of the run.
// The names keep their order: the suffix 0 sorts before every letter and digit
// that may follow.
func (d *docRun) rename(t *T, old string) *T {
	if t.K == kSym && strings.HasPrefix(t.S, old) && !docShared[t.S] {
		return &T{K: kSym, S: d.ctx + t.S[len(old):] + d.suf}
	}
	if t.K != kExpr {
		return t
	}
	out := make([]*T, len(t.A))
	for i, a := range t.A {
		out[i] = d.rename(a, old)
	}
	return ex(out...)
}

// term is a text of the corpus as the term the run evaluates.
func (d *docRun) term(s *Sess, kind, src string) *T {
	if kind == "ex" {
		return d.rename(d.rename(s.Parse(src), docPrefix), d.g.module+d.g.name+"TestState`")
	}
	return d.rename(s.Parse(src), d.ctx)
}

// readBack prints a term and reads it again.
func readBack(s *Sess, t *T, form string) *T {
	return fromEx(parser.Interp(s.Form(t.Ex(), form), s.es))
}

// sameShown is equality of results as the documentation shows them: reals to
// the digits that are shown.
func sameShown(a, b *T) bool {
	if same(a, b) {
		return true
	}
	if a.K == kFlt && b.K == kFlt {
		x, _ := a.F.Float64()
		y, _ := b.F.Float64()
		return math.Abs(x-y) <= 1e-5*math.Max(math.Abs(x), math.Abs(y))
	}
	if a.K != b.K || len(a.A) != len(b.A) || a.K != kExpr && a.K != kCplx {
		return false
	}
	for i := range a.A {
		if !sameShown(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

func mentionedIn(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func (d *docRun) step(b *B, s *Sess, r *rand.Rand) {
	e := d.g.exs[d.next]
	d.next++
	if e.kind == "reset" {
		s.es.ClearAll()
		return
	}
	if e.kind == "str" && d.suf != "" {
		return
	}
	s.Run("$Context = " + fmt.Sprintf("%q", d.ctx))
	id := fmt.Sprintf("%s.%s #%d", d.g.module, d.g.name, d.next)
	b.Casef("%s (%s): %s", id, d.mode, e.in)
	b.Seen(id + d.mode)
	b.Count("examples", 1)
	b.Count(d.mode, 1)
	if e.kind == "str" {
		var got string
		if p := guard(func() { got = expreduce.EasyRun(e.in, s.es) }); p != nil {
			b.Fail(id, "%v", p)
			return
		}
		if got != e.out {
			b.Fail(id, "%s prints %s, not %s", e.in, clip(got, 300), e.out)
		}
		return
	}
	in := d.term(s, e.kind, e.in)
	want := d.term(s, e.kind, e.out)
	run := in
	switch d.mode {
	case "read back":
		// Printed reals are short, Optional, Infix and Part of nothing do
		// not print as themselves.
		odd := false
		in.walk(func(u *T) { odd = odd || u.K == kFlt })
		in.walk(func(u *T) { odd = odd || u.hasHead("Part") && len(u.A) < 3 })
		if !odd && !mentions(in, "Optional", "Infix") {
			run = readBack(s, in, pick(r, "FullForm", "InputForm"))
		}
	case "nested":
		if !mentions(in, "Sequence", "Throw", "Return", "Trace", "Unevaluated", "Break", "Print") {
			switch r.Intn(4) {
			case 0:
				run = sfn("If", boolT(true), in, in)
			case 1:
				run = sfn("CompoundExpression", str("x"), in)
			case 2:
				run = sfn("Module", list(), in)
			case 3:
				run = sfn("Which", boolT(false), in, boolT(true), in)
			}
		}
	}
	var got, exp *T
	if p := guard(func() {
		got = s.EvalT(run)
		exp = s.EvalT(want)
	}); p != nil {
		b.Fail(id, "%v", p)
		return
	}
	if !sameShown(got, exp) {
		b.Fail(id, "%s gives %s, not %s", run.Src(), clip(got.Src(), 300), clip(exp.Src(), 300))
	}
}

func init() {
	register("P34", "every example in the documentation of the builtins (2,400 inputs with the results they are documented to have), in sessions where the examples of many builtins follow each other in random order or are interleaved: as they are written, with other names for their variables, printed and read back first, evaluated inside other constructs, and with tracing, profiling or logging on; distinct = distinct pairs of example and way", func(c *Ctx) {
		const slices = 8
		c.Batch("examples", c.N(4*slices, 8), func(b *B) {
			order := rand.New(rand.NewSource(int64(b.Idx/slices) + 1)).Perm(len(docGroups))
			s := newSess()
			var runs []*docRun
			for k := b.Idx % slices; k < len(order); k += slices {
				g := docGroups[order[k]]
				mode := []string{"as written", "renamed", "read back", "nested"}[(b.Idx/slices+order[k])%4]
				d := &docRun{g: g, mode: mode, ctx: fmt.Sprintf("q%dTestState`", k)}
				if mode == "renamed" || mode == "read back" {
					d.suf = "0"
				}
				runs = append(runs, d)
			}
			for i := 0; i < len(runs); {
				// One group, or two interleaved.
				now := runs[i : i+1]
				if i+1 < len(runs) && b.R.Intn(2) == 0 {
					now = runs[i : i+2]
				}
				i += len(now)
				observed := b.R.Intn(6)
				heavy := false
				for _, d := range now {
					heavy = heavy || mentionedIn(d.g.module, "solve", "calculus", "simplify", "manip", "tests", "power")
				}
				if observed == 0 && !heavy {
					s.es.SetTrace(atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List")}))
					b.Count("groups traced", 1)
				}
				s.es.SetProfiling(observed == 1)
				for {
					live := []*docRun{}
					for _, d := range now {
						if d.next < len(d.g.exs) {
							live = append(live, d)
						}
					}
					if len(live) == 0 {
						break
					}
					live[b.R.Intn(len(live))].step(b, s, b.R)
				}
				s.es.SetTrace(nil)
				s.es.SetProfiling(false)
			}
		})
	})
}
