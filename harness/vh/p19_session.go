package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

// A line of a session: its text, and the text that means the same in a session
// without history, when it is evaluated as line k.
type histLine struct {
	text  string
	plain func(k int) string
	kind  string // "", null, throw, syntax
	ref   bool   // may be referred to
}

type histGen struct {
	r     *rand.Rand
	lines []histLine // from line 1
	outs  []*T       // the results so far
	cost  []int      // how many inputs a line evaluates
}

func (g *histGen) out(k int) string {
	if k < 1 || k > len(g.outs) {
		return fmt.Sprintf("Out[%d]", k)
	}
	return "(" + g.outs[k-1].Src() + ")"
}

// expr is an expression of line k, and its plain text.
func (g *histGen) expr(d int, cost *int) (string, func(int) string) {
	r := g.r
	fixed := func(s string) (string, func(int) string) { return s, func(int) string { return s } }
	k := len(g.lines) + 1
	if d <= 0 || r.Intn(6) == 0 {
		switch r.Intn(8) {
		case 0:
			return fixed(pick(r, "a", "b", "c"))
		case 1:
			return fixed(pick(r, "u1", "u2", "u3"))
		case 2:
			if k > 1 && g.lines[k-2].ref {
				return "%", func(k int) string { return g.out(k - 1) }
			}
		case 3:
			if k > 2 && g.lines[k-3].ref && g.lines[k-2].ref {
				return "%%", func(k int) string { return g.out(k - 2) }
			}
		case 4:
			if n := r.Intn(k + 3); n == 0 || n < k && g.lines[n-1].ref {
				return fmt.Sprintf("Out[%d]", n), func(int) string { return g.out(n) }
			}
		case 5:
			if k > 1 {
				n := 1 + r.Intn(k-1)
				if g.lines[n-1].ref && *cost+g.cost[n-1] < 20 {
					*cost += g.cost[n-1]
					p := g.lines[n-1].plain
					return fmt.Sprintf("In[%d]", n), func(k int) string { return "(" + p(k) + ")" }
				}
			}
		}
		return fixed(fmt.Sprint(r.Intn(30) - 5))
	}
	x, px := g.expr(d-1, cost)
	y, py := g.expr(d-1, cost)
	f := pick(r, "(%s + %s)", "(%s*%s)", "{%s, %s}", "g[%s, %s]", "(%s; %s)", "If[True, %s, %s]", "h[%s][%s]")
	return fmt.Sprintf(f, x, y), func(k int) string { return fmt.Sprintf(f, px(k), py(k)) }
}

func (g *histGen) line() histLine {
	r := g.r
	cost := 1
	x, px := g.expr(r.Intn(4), &cost)
	l := histLine{text: x, plain: px, ref: true}
	switch r.Intn(12) {
	case 0, 1, 2:
		n := pick(r, "u1", "u2", "u3")
		l.text, l.plain = n+" = "+x, func(k int) string { return n + " = " + px(k) }
	case 3:
		l.text, l.plain = pick(r, "Null", x+";"), func(k int) string { return px(k) + ";" }
		l.kind, l.ref = "null", false
		if l.text == "Null" {
			l.plain = func(int) string { return "Null" }
		}
	case 4:
		l.text, l.plain, l.kind, l.ref = "Throw["+x+"]", func(k int) string { return "Catch[Throw[" + px(k) + "]]" }, "throw", false
	case 5:
		t := pick(r, "f[", "1 +", "}", "\"abc", "a b) c", "(* no end")
		l.text, l.plain, l.kind, l.ref = t, func(int) string { return "Null" }, "syntax", false
	case 6:
		l.text, l.plain = "$Line", func(k int) string { return fmt.Sprint(k) }
	}
	g.cost = append(g.cost, cost)
	return l
}

func (g *histGen) start() []histLine {
	out := []histLine{}
	for i, v := range []string{"u1 = 2", "u2 = {a, 3}", "u3 = b"} {
		v := v
		if i == 0 && g.r.Intn(2) == 0 {
			v = "u1 = 2 + Length[{1}]"
		}
		out = append(out, histLine{text: v, plain: func(int) string { return v }, ref: true})
		g.cost = append(g.cost, 1)
	}
	return out
}

func init() {
	register("P19", "sessions of random lines that refer to earlier inputs and results, in process and through the command; distinct = distinct lines", func(c *Ctx) {
		// play makes a session of n lines; each is given to do with the
		// result it must have.
		play := func(b *B, plain *Sess, n int, do func(k int, l histLine, want *T) bool) *histGen {
			g := &histGen{r: b.R}
			plain.Run("ClearAll[u1, u2, u3]")
			first := g.start()
			for k := 1; k <= n; k++ {
				var l histLine
				if k <= len(first) {
					l = first[k-1]
				} else {
					l = g.line()
				}
				want := plain.Run(l.plain(k))
				if want.size() > 300 {
					if k > len(first) {
						g.cost = g.cost[:k-1]
					}
					// Too long; u1 to u3 keep what they got.
					l = histLine{text: "{u1, u2, u3} /. x_ :> (u1 = 1; u2 = a; u3 = {}; 0)", ref: true}
					t := l.text
					l.plain = func(int) string { return t }
					g.cost = append(g.cost, 1)
					if plain.Run(l.plain(k)); plain.es.HasThrown() {
						plain.es.Throw(nil)
					}
					want = in(0)
					// The first reading of the line has been evaluated in
					// the session without history only.
				}
				if l.kind == "throw" {
					want = sfn("Hold", sfn("Throw", want))
				}
				if l.kind == "null" || l.kind == "syntax" {
					want = sys("Null")
				}
				b.Seen(l.text)
				b.Count("lines", 1)
				g.lines = append(g.lines, l)
				ok := do == nil || do(k, l, want)
				g.outs = append(g.outs, want)
				if !ok {
					break
				}
			}
			return g
		}
		c.Batch("history", c.N(80, 15), func(b *B) {
			s, plain := newSess(), newSess()
			pre := ""
			if b.R.Intn(3) == 0 {
				pre = pick(b.R, "pp", "FullForm")
				s.Run("$PrePrint = " + pre)
			}
			text := ""
			g := play(b, plain, 40, func(k int, l histLine, want *T) bool {
				text += fmt.Sprintf("%d: %s\n", k, l.text)
				b.Case(text)
				e := parser.Interp(l.text, s.es)
				shown := fromEx(s.es.ProcessTopLevelResult(e, s.es.Eval(e)))
				show := want
				if pre == "pp" {
					show = fn("pp", want)
				} else if pre != "" {
					show = sfn(pre, want)
				}
				if !same(shown, show) {
					b.Fail("shown", "line %d of\n%s\nshows %s; expected %s", k, text, clip(shown.Key(), 150), clip(show.Key(), 150))
					return false
				}
				if got := s.Run("$Line"); !same(got, in(int64(k+1))) {
					b.Fail("line", "$Line is %s after line %d", got.Key(), k)
				}
				return true
			})
			for k, want := range g.outs {
				if !g.lines[k].ref {
					continue
				}
				if got := s.EvalT(sfn("Out", in(int64(k+1)))); !same(got, want) {
					b.Fail("out", "Out[%d] is %s after\n%s", k+1, clip(got.Key(), 150), text)
				}
			}
			for _, k := range []int{0, -1, len(g.outs) + 2} {
				for _, f := range []string{"Out", "In"} {
					if x := sfn(f, in(int64(k))); !same(s.EvalT(x), x) {
						b.Fail("no-entry", "%s is %s", x.Key(), s.EvalT(x).Key())
					}
				}
			}
			for _, v := range []string{"u1", "u2", "u3"} {
				if x, y := s.Run(v), plain.Run(v); !same(x, y) {
					b.Fail("effects", "%s is %s, without history %s, after\n%s", v, clip(x.Key(), 150), clip(y.Key(), 150), text)
				}
			}
		})
		run := func(b *B, stdin string, args ...string) string {
			ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, os.Getenv("VH_MAIN"), args...)
			cmd.Dir = c.Scratch
			cmd.Env = append(os.Environ(), "HOME="+c.Scratch)
			if stdin != "" {
				cmd.Stdin = strings.NewReader(stdin)
			}
			var out, errs bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errs
			if err := cmd.Run(); err != nil {
				b.Fail("command", "%v: %v %s\n%s", args, err, clip(errs.String(), 600), clip(stdin, 1500))
			}
			return out.String()
		}
		c.Batch("command", c.N(24, 15), func(b *B) {
			plain := newSess()
			text, want := "", ""
			lines := 0
			marker := "\x00ANY\x00" // the message of a syntax error
			play(b, plain, 30, func(k int, l histLine, t *T) bool {
				if strings.Contains(l.text, "\n") {
					return false
				}
				if b.R.Intn(8) == 0 {
					text += "\n" // an empty line
					want += fmt.Sprintf("In[%d]:= ", k)
				}
				text += l.text + "\n"
				lines++
				want += fmt.Sprintf("In[%d]:= \n", k)
				if l.kind == "syntax" {
					want += "Syntax::sntx: " + marker
				}
				if l.kind == "throw" {
					want += "Throw::nocatch: " + marker
				}
				if !same(t, sys("Null")) {
					want += fmt.Sprintf("Out[%d]= %s\n\n", k, t.Ex().StringForm(expreduce.ActualStringFormArgsFull("InputForm", plain.es)))
				}
				return true
			})
			want += fmt.Sprintf("In[%d]:= ", lines+1)
			if b.R.Intn(2) == 0 {
				text = text[:len(text)-1]
			}
			b.Case(text)
			got := run(b, text, "-rawterm")
			if bad := matchText("Welcome to Expreduce!\n\n"+want, got, marker); bad != "" {
				b.Fail("transcript", "the command differs %s; input:\n%s\noutput:\n%s", bad, text, clip(got, 3000))
			}
		})
		c.Batch("forms", c.N(2, 5), func(b *B) {
			s := newSess()
			text, want := "", "Welcome to Expreduce!\n\n"
			for k := 1; k <= 12; k++ {
				x := pick(b.R, "a + b", "{1, \"s\", x^2}", "f[a - b]", "1/2 + I", "\"text\"")
				form := pick(b.R, "FullForm", "OutputForm", "InputForm", "")
				e := s.Parse(x)
				res := s.EvalT(e)
				want += fmt.Sprintf("In[%d]:= \n", k)
				switch form {
				case "FullForm", "OutputForm":
					text += form + "[" + x + "]\n"
					want += fmt.Sprintf("Out[%d]//%s= %s\n\n", k, form, res.Ex().StringForm(expreduce.ActualStringFormArgsFull(form, s.es)))
				default:
					text += x + "\n"
					want += fmt.Sprintf("Out[%d]= %s\n\n", k, res.Ex().StringForm(expreduce.ActualStringFormArgsFull("InputForm", s.es)))
				}
			}
			want += "In[13]:= "
			b.Case(text)
			b.Seen(text)
			if got := run(b, text, "-rawterm"); got != want {
				b.Fail("forms", "input:\n%s\noutput:\n%s\nexpected:\n%s", text, got, want)
			}
		})
		c.Batch("scripts", c.N(16, 12), func(b *B) {
			// Statements over several lines, with comments and blank lines.
			plain := newSess()
			g := &histGen{r: b.R}
			script, printed := "", ""
			stmts := []string{"u1 = 3", "u2 = {a}", "u3 = 1/2", "n = 0"}
			for i := 0; i < 25; i++ {
				cost := 100
				x, _ := g.expr(1+b.R.Intn(3), &cost)
				if strings.ContainsAny(x, "%IO") {
					continue
				}
				switch b.R.Intn(6) {
				case 5:
					x = pick(b.R, "3", "a", "-2", "\"s\"", "u1", "(b)", "{}", "1.5")
				case 0:
					x = pick(b.R, "u1", "u2", "u3") + " = Length[" + x + "]"
				case 1:
					x = "n = n + 1"
				case 2:
					x = "k[p_] := {p, " + x + "}"
				case 3:
					x = "k[" + x + "]"
				}
				stmts = append(stmts, x)
			}
			for i, x := range stmts {
				res := plain.Run(x)
				if b.R.Intn(2) == 0 {
					x = "r" + fmt.Sprint(i) + " = Hold[" + pick(b.R, "1", "{}") + "]; " + x
				}
				if b.R.Intn(3) == 0 {
					x += "; Print[{u1, u2, u3, n}]"
					printed += plain.Run("{u1, u2, u3, n}").Ex().StringForm(expreduce.ActualStringFormArgsFull("OutputForm", plain.es)) + "\n"
				} else if b.R.Intn(3) == 0 && !same(res, sys("Null")) && !strings.Contains(x, "n = n") {
					x = "Print[" + stmts[i] + "]"
					printed += plain.Run(stmts[i]).Ex().StringForm(expreduce.ActualStringFormArgsFull("OutputForm", plain.es)) + "\n"
				}
				for _, op := range []string{", ", "[", "; "} {
					if b.R.Intn(4) == 0 {
						x = strings.Replace(x, op, op+pick(b.R, "\n", "\n   ", " (* c, [ *) \n"), 1)
					}
				}
				script += x + pick(b.R, "\n", "\n\n", ";\n", " (* x = 7; *)\n", "\n(* \"q\n *)\n")
			}
			b.Case(script)
			b.Seen(script)
			name := c.Scratch + fmt.Sprintf("/script%d.m", b.Idx)
			if err := os.WriteFile(name, []byte(script), 0o600); err != nil {
				panic(err)
			}
			defer os.Remove(name)
			want := "Welcome to Expreduce!\n\n"
			if got := run(b, "", "-script", name); got != want+printed {
				b.Fail("script", "%s\nprints\n%s\nexpected\n%s", script, clip(got, 2000), clip(want+printed, 2000))
			}
			if b.Idx%4 == 0 {
				want += printed + "In[1]:= \nOut[1]= " + plain.Run("{u1, u2, u3, n}").Ex().StringForm(expreduce.ActualStringFormArgsFull("InputForm", plain.es)) + "\n\nIn[2]:= "
				if got := run(b, "{u1, u2, u3, n}\n", "-rawterm", "-initfile", name); got != want {
					b.Fail("initfile", "%s\nprints\n%s\nexpected\n%s", script, clip(got, 2000), clip(want, 2000))
				}
			}
		})
	})
}

// matchText compares got to want, in which marker stands for any text up to
// what follows it.
func matchText(want, got, marker string) string {
	parts := strings.Split(want, marker)
	if !strings.HasPrefix(got, parts[0]) {
		return "near " + firstDiff(parts[0], got)
	}
	got = got[len(parts[0]):]
	for i, p := range parts[1:] {
		// The message ends where the next prompt or result starts.
		k := strings.Index(got, p)
		if k < 0 {
			return fmt.Sprintf("after message %d: %q is missing", i+1, clip(p, 300))
		}
		got = got[k+len(p):]
	}
	if got != "" {
		return fmt.Sprintf("at the end: %q", clip(got, 200))
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%q, expected %q", clip(b[i:], 120), clip(a[i:], 120))
}
