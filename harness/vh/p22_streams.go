package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/streammanager"
)

var streamStrs = []string{"", "a", "b\n", "abc", "\n", "é∂", "x\x00y", "%d %s\n", "\\n", "\"", "long " + strings.Repeat("z", 5000)}

func init() {
	register("P22", "random sequences of writes to the stream manager (every pairing of known and unknown names and numbers, with and without the number, all kinds of text, a stream whose file is closed) and random programs of Print and WriteString under loops, conditionals and functions; the bytes that reach each file are compared with the specified ones after every operation; distinct = distinct operation sequences or programs", func(c *Ctx) {
		c.Batch("manager", c.N(24, 40), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				for i := 0; i < 60; i++ {
					sm := streammanager.NewStreamManager()
					startO, startE := fsize(fo), fsize(fe)
					wantO, wantE := "", ""
					ops := []string{}
					n := 1 + b.R.Intn(25)
					for k := 0; k < n; k++ {
						name := pick(b.R, "stdout", "stderr", "stdout", "stderr", "stdin", "", "Stdout", "stdout ", "other")
						id := []int64{-1, -1, 1, 2, 1, 2, 0, 3, -2, 1 << 40}[b.R.Intn(10)]
						txt := streamStrs[b.R.Intn(len(streamStrs))]
						if b.R.Intn(4) == 0 {
							txt = fmt.Sprintf("<%d>", b.R.Int63())
						}
						ops = append(ops, fmt.Sprintf("WriteString(%q, %d, %.12q)", name, id, txt))
						b.Case(strings.Join(ops, "; "))
						want := false
						if name == "stdout" && (id == 1 || id == -1) {
							wantO += txt
							want = true
						}
						if name == "stderr" && (id == 2 || id == -1) {
							wantE += txt
							want = true
						}
						got := sm.WriteString(name, id, txt)
						if got != want {
							b.Fail("result", "the last write reports %v, want %v", got, want)
						}
						if g := outTail(fo, startO); g != wantO {
							b.Fail("stdout", "standard output got %.300q, want %.300q", g, wantO)
						}
						if g := outTail(fe, startE); g != wantE {
							b.Fail("stderr", "standard error got %.300q, want %.300q", g, wantE)
						}
						if b.R.Intn(6) == 0 {
							ops = append(ops, "AsExpr()")
							l := list(sfn("OutputStream", str("stdout"), in(1)), sfn("OutputStream", str("stderr"), in(2)))
							if got := fromEx(sm.AsExpr()); !same(got, l) {
								b.Fail("AsExpr", "the open streams are %s, want %s", got.Src(), l.Src())
							}
						}
						b.Count("writes", 1)
					}
					b.Seen(strings.Join(ops, ";"))
				}
			})
		})
		c.Batch("failure", c.N(4, 10), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				for i := 0; i < 20; i++ {
					// A file that refuses the write: closed, or open for reading only.
					bad, err := os.Open(os.DevNull)
					if err != nil {
						panic(err)
					}
					if b.R.Intn(2) == 0 {
						bad.Close()
					}
					which := b.R.Intn(2)
					so, se := os.Stdout, os.Stderr
					if which == 0 {
						os.Stdout = bad
					} else {
						os.Stderr = bad
					}
					sm := streammanager.NewStreamManager()
					os.Stdout, os.Stderr = so, se
					for k := 0; k < 6; k++ {
						w := b.R.Intn(2)
						id := []int64{-1, int64(w + 1)}[b.R.Intn(2)]
						txt := fmt.Sprintf("t%d", b.R.Intn(1000))
						b.Casef("stream %d cannot be written; WriteString(%d, %d, %q)", which, w, id, txt)
						fh := []*os.File{fo, fe}[w]
						off := fsize(fh)
						got := sm.WriteString([]string{"stdout", "stderr"}[w], id, txt)
						if got != (w != which) {
							b.Fail("failure", "the write reports %v", got)
						}
						if g := outTail(fh, off); (w != which) && g != txt || (w == which) && g != "" {
							b.Fail("failure-data", "the stream got %q", g)
						}
						b.Seen(b.desc)
					}
					bad.Close()
				}
			})
		})
		c.Batch("session", c.N(16, 30), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				s := newSess()
				for i := 0; i < 80; i++ {
					g := &outGen{b: b}
					src := g.prog(3, "")
					b.Case(src)
					oo, oe := fsize(fo), fsize(fe)
					s.Run(src)
					if got := outTail(fo, oo); got != g.o {
						b.Fail("session-stdout", "standard output got %.500q, want %.500q", got, g.o)
					}
					if got := outTail(fe, oe); got != g.e {
						b.Fail("session-stderr", "standard error got %.500q, want %.500q", got, g.e)
					}
					b.Count("bytes", int64(len(g.o)+len(g.e)))
					b.Seen(src)
				}
				b.Case("Streams[]")
				l := list(sfn("OutputStream", str("stdout"), in(1)), sfn("OutputStream", str("stderr"), in(2)))
				if got := s.Run("Streams[]"); !same(got, l) {
					b.Fail("Streams", "gives %s", got.Src())
				}
				for _, bad := range []string{"18446744073709551617", "3", "0", "2"} {
					b.Case("stdout number " + bad)
					oo, oe := fsize(fo), fsize(fe)
					s.Runf("WriteString[OutputStream[\"stdout\", %s], \"lost\"]", bad)
					if strings.Contains(outTail(fo, oo)+outTail(fe, oe), "lost") {
						b.Fail("unknown", "a write to a stream that is not open reached one")
					}
				}
			})
		})
	})
}

// outGen writes a program and, as it goes, what the program must output. A loop
// body is generated once per iteration value, so it is built as a template.
type outGen struct {
	b    *B
	o, e string
	vars int
}

type outStmt struct {
	src  string
	emit func(env map[string]int, g *outGen)
}

func (g *outGen) prog(depth int, _ string) string {
	st := g.stmt(depth, nil)
	st.emit(map[string]int{}, g)
	return st.src
}

func (g *outGen) stmt(depth int, vars []string) outStmt {
	r := g.b.R
	k := r.Intn(9)
	if depth == 0 {
		k = r.Intn(4)
	}
	switch k {
	case 0, 1: // Print
		n := r.Intn(4)
		parts, outs := []string{}, []func(map[string]int) string{}
		for i := 0; i < n; i++ {
			p, o := g.item(vars)
			parts, outs = append(parts, p), append(outs, o)
		}
		return outStmt{"Print[" + strings.Join(parts, ", ") + "]", func(env map[string]int, g *outGen) {
			for _, o := range outs {
				g.o += o(env)
			}
			g.o += "\n"
		}}
	case 2, 3:
		txt := pick(r, "a", "bc", "\n", "x y ", "é", "%d")
		lit := strings.ReplaceAll(escStr(txt), "\n", "\\n")
		switch r.Intn(4) {
		case 0:
			return outStmt{"WriteString[\"stdout\", " + lit + "]", func(env map[string]int, g *outGen) { g.o += txt }}
		case 1:
			return outStmt{"WriteString[\"stderr\", " + lit + "]", func(env map[string]int, g *outGen) { g.e += txt }}
		case 2:
			return outStmt{"WriteString[OutputStream[\"stdout\", 1], " + lit + "]", func(env map[string]int, g *outGen) { g.o += txt }}
		}
		return outStmt{"WriteString[OutputStream[\"stderr\", 2], " + lit + "]", func(env map[string]int, g *outGen) { g.e += txt }}
	case 4, 5: // sequence
		n := 2 + r.Intn(3)
		ss, em := []string{}, []outStmt{}
		for i := 0; i < n; i++ {
			st := g.stmt(depth-1, vars)
			ss, em = append(ss, st.src), append(em, st)
		}
		return outStmt{"(" + strings.Join(ss, "; ") + ")", func(env map[string]int, g *outGen) {
			for _, st := range em {
				st.emit(env, g)
			}
		}}
	case 6: // Do
		v := fmt.Sprintf("v%d", len(vars))
		n := r.Intn(4)
		st := g.stmt(depth-1, append(append([]string{}, vars...), v))
		return outStmt{fmt.Sprintf("Do[%s, {%s, %d}]", st.src, v, n), func(env map[string]int, g *outGen) {
			for i := 1; i <= n; i++ {
				e := map[string]int{}
				for k, x := range env {
					e[k] = x
				}
				e[v] = i
				st.emit(e, g)
			}
		}}
	case 7: // Map
		v := fmt.Sprintf("v%d", len(vars))
		vals := []int{}
		txt := []string{}
		for i := r.Intn(4); i > 0; i-- {
			vals = append(vals, r.Intn(50))
			txt = append(txt, fmt.Sprint(vals[len(vals)-1]))
		}
		st := g.stmt(depth-1, append(append([]string{}, vars...), v))
		return outStmt{fmt.Sprintf("Map[Function[%s, %s], {%s}]", v, st.src, strings.Join(txt, ", ")), func(env map[string]int, g *outGen) {
			for _, i := range vals {
				e := map[string]int{}
				for k, x := range env {
					e[k] = x
				}
				e[v] = i
				st.emit(e, g)
			}
		}}
	}
	a, c := g.stmt(depth-1, vars), g.stmt(depth-1, vars)
	yes := r.Intn(2) == 0
	cond := pick(r, "2 > 1", "True", "MatchQ[f[1], f[_]]")
	if !yes {
		cond = pick(r, "1 > 2", "False", "MatchQ[f[1], g[_]]")
	}
	return outStmt{fmt.Sprintf("If[%s, %s, %s]", cond, a.src, c.src), func(env map[string]int, g *outGen) {
		if yes {
			a.emit(env, g)
		} else {
			c.emit(env, g)
		}
	}}
}

func (g *outGen) item(vars []string) (string, func(map[string]int) string) {
	r := g.b.R
	if len(vars) > 0 && r.Intn(2) == 0 {
		v := vars[r.Intn(len(vars))]
		return v, func(env map[string]int) string { return fmt.Sprint(env[v]) }
	}
	switch r.Intn(5) {
	case 0:
		n := r.Int63n(1 << 50)
		return fmt.Sprint(n), func(map[string]int) string { return fmt.Sprint(n) }
	case 1:
		s := pick(r, "", "a", "x = ", "é", "[1, 2]", "a\"b", "%s")
		return escStr(s), func(map[string]int) string { return s }
	case 2:
		a, c := r.Intn(1000), r.Intn(1000)
		return fmt.Sprintf("%d + %d", a, c), func(map[string]int) string { return fmt.Sprint(a + c) }
	case 3:
		xs := []string{"p", "q", "zz"}
		sort.Strings(xs)
		return "{p, q, \"s\"}", func(map[string]int) string { return "{p, q, s}" }
	}
	return "p1", func(map[string]int) string { return "p1" }
}
