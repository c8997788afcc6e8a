package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// fileDef is a definition to be saved.
func fileDef(r *rand.Rand, g evalGen) *T {
	switch r.Intn(8) {
	case 0:
		return sfn("Set", sym(pick(r, "x1", "x2", "x3")), genNum(r))
	case 1:
		return sfn("SetDelayed", fn("f2", sfn("Pattern", sym("p"), sfn("Blank")), sfn("Pattern", sym("q"), sfn("BlankNullSequence"))),
			sfn("Condition", list(sym("p"), sym("q"), sym("x1")), sfn("FreeQ", sym("p"), sym("a"))))
	case 2:
		return sfn("SetDelayed", fn("f3", sfn("PatternTest", sfn("Pattern", sym("p"), sfn("Blank")), sys("EvenQ"))), sfn("Times", flt(2.5), sym("p")))
	case 3:
		return sfn("SetDelayed", fn("f3", sfn("Alternatives", in(7), str("s"), rat(1, 2), cplx(in(1), in(2)))), g.expr(2, 2))
	case 4:
		return sfn("SetDelayed", fn("f2", sfn("Optional", sfn("Pattern", sym("p"), sfn("Blank")), in(9)), sfn("Pattern", sym("q"), sfn("Blank", sys("String")))), list(sym("p"), sym("q")))
	}
	return g.op().t
}

func init() {
	register("P20", "random", func(c *Ctx) {
		names := append([]string{"g", "h"}, evalNames...)
		path := func(b *B, s string) string { return fmt.Sprintf("%s/%s%d", c.Scratch, s, b.Idx) }
		state := func(s *Sess, names []string) map[string]string {
			sel := map[string]bool{}
			for _, n := range names {
				sel["Global`"+n] = true
			}
			return defsOf(s.es, func(n string) bool { return sel[n] })
		}
		c.Batch("atoms", c.N(40, 10), func(b *B) {
			atoms.RegisterGobAtoms()
			for i := 0; i < 60; i++ {
				t := genTerm(b.R, b.R.Intn(4))
				if b.R.Intn(3) == 0 {
					t = bigT(new(big.Int).Rand(b.R, new(big.Int).Lsh(big.NewInt(1), 300)))
				}
				b.Casef("%s", t.Key())
				b.Seen(t.Key())
				b.Count("atoms", 1)
				var buf bytes.Buffer
				e := t.Ex()
				e.Hash()
				in := []expreduceapi.Ex{e}
				if err := gob.NewEncoder(&buf).Encode(in); err != nil {
					b.Fail("encode", "%s: %v", t.Key(), err)
					continue
				}
				out := []expreduceapi.Ex{}
				if err := gob.NewDecoder(&buf).Decode(&out); err != nil || len(out) != 1 {
					b.Fail("decode", "%s: %v", t.Key(), err)
					continue
				}
				if got := fromEx(out[0]); !same(got, t) {
					b.Fail("gob", "%s is %s after it was encoded and decoded", t.Key(), got.Key())
				} else if out[0].Hash() != t.Ex().Hash() || !atoms.IsSameQ(out[0], t.Ex()) {
					b.Fail("gob-hash", "%s is not the same after it was encoded and decoded", t.Key())
				}
			}
		})
		c.Batch("save", c.N(48, 20), func(b *B) {
			g := evalGen{b.R}
			a, to := newSess(), newSess()
			file := path(b, "s")
			defer os.Remove(file)
			for i := 0; i < 8; i++ {
				for _, s := range []*Sess{a, to} {
					s.Clear(names...)
					s.Clear("other")
				}
				text := ""
				for k := 2 + b.R.Intn(10); k > 0; k-- {
					d := fileDef(b.R, g)
					a.EvalT(d)
					text += d.Src() + "; "
					// evaluated before they are saved
					if b.R.Intn(3) == 0 {
						if q := g.expr(2, len(evalNames)); q.size() < 100 {
							a.EvalT(q)
						}
					}
				}
				before := ""
				for k := b.R.Intn(6); k > 0; k-- {
					d := fileDef(b.R, g)
					to.EvalT(d)
					before += d.Src() + "; "
				}
				to.Run("other = 5")
				// those saved
				saved, rest := []string{}, []string{"other"}
				quoted := []*T{}
				for _, n := range names {
					if _, ok := state(a, []string{n})["Global`"+n]; ok && b.R.Intn(4) > 0 {
						saved = append(saved, n)
						quoted = append(quoted, str("Global`"+n))
					} else {
						rest = append(rest, n)
					}
				}
				b.Casef("%s saved %v, read after %s", text, saved, before)
				if len(saved) == 0 {
					continue
				}
				b.Seen(text)
				b.Count("saves", 1)
				own, untouched := state(a, names), state(to, rest)
				if got := a.EvalT(sfn("Save", str(file), list(quoted...))); !same(got, sys("Null")) {
					b.Fail("save", "Save gives %s", got.Key())
					continue
				}
				if d := diffDefs(own, state(a, names)); d != "" {
					b.Fail("save-changes", "saving %v changes %s; %s", saved, d, text)
				}
				if got := to.EvalT(sfn("Get", str(file))); !same(got, sys("Null")) {
					b.Fail("get", "Get gives %s", got.Key())
				}
				if d := diffDefs(state(a, saved), state(to, saved)); d != "" {
					b.Fail("restored", "%v differ when read after %s: %s; %s", saved, before, d, text)
				}
				if d := diffDefs(untouched, state(to, rest)); d != "" {
					b.Fail("others", "reading %v changes %s", saved, d)
				}
				// They go on as they were.
				more := fileDef(b.R, g)
				a.EvalT(more)
				to.EvalT(more)
				if d := diffDefs(state(a, saved), state(to, saved)); d != "" {
					b.Fail("continued", "%v, read after %s, differ after %s: %s; %s", saved, before, more.Src(), d, text)
				}
				// Everything but what is inert was saved: the sessions are equal.
				if d := diffDefs(state(a, names), state(to, names)); d == "" {
					for k := 0; k < 10; k++ {
						q := g.expr(2, len(evalNames))
						if q.size() > 150 {
							continue
						}
						b.Count("queries", 1)
						if x, y := a.EvalT(q), to.EvalT(q); !same(x, y) {
							b.Fail("queries", "%s gives %s where it was defined, %s where it was read; %s", q.Src(), clip(x.Key(), 150), clip(y.Key(), 150), text)
						}
					}
				}
			}
		})
		c.Batch("values", c.N(8, 10), func(b *B) {
			// Values read anew, where the symbols in them have values.
			a, to := newSess(), newSess()
			file := path(b, "v")
			defer os.Remove(file)
			g := evalGen{b.R}
			for i := 0; i < 20; i++ {
				v := a.EvalT(g.expr(3, 0))
				if v.size() > 100 || v.hasHead("Hold") {
					continue
				}
				a.EvalT(sfn("Set", sym("x1"), v))
				a.EvalT(sfn("Save", str(file), list(str("Global`x1"))))
				to.Run("ClearAll[a, b, c, d, x1]; a = 5; b = {1, 2}; d = h")
				to.EvalT(sfn("Get", str(file)))
				b.Casef("%s", v.Key())
				b.Count("values", 1)
				if x, y := to.Run("x1"), to.EvalT(v); !same(x, y) {
					b.Fail("value", "x1 = %s, read where a = 5, b = {1, 2} and d = h, gives %s, expected %s", v.Key(), clip(x.Key(), 200), clip(y.Key(), 200))
				}
			}
		})
		c.Batch("damage", c.N(8, 20), func(b *B) {
			g := evalGen{b.R}
			a := newSess()
			to := newSess()
			file := path(b, "d")
			defer os.Remove(file)
			a.Run("ClearAll[f1, x1]; x1 = {2, \"s\"}; f1[0] = 1")
			for k := b.R.Intn(4); k > 0; k-- {
				a.EvalT(sfn("SetDelayed", fn("f1", sfn("Pattern", sym("p"), sfn("Blank", sys(pick(b.R, "Integer", "List", "String", "Symbol"))))), g.expr(3, 1, "p")))
			}
			a.EvalT(sfn("Save", str(file), list(str("Global`x1"), str("Global`f1"))))
			data, err := os.ReadFile(file)
			if err != nil {
				panic(err)
			}
			to.Run("x1 = 8; f1[p_] := 9")
			own := state(to, []string{"x1", "f1"})
			for i := 0; i < 60; i++ {
				x := append([]byte{}, data...)
				what := ""
				switch b.R.Intn(4) {
				case 0, 1:
					k := 8 + b.R.Intn(len(x)-8)
					x, what = x[:k], fmt.Sprintf("cut after %d of %d bytes", k, len(data))
				case 2:
					k, bit := 8+b.R.Intn(len(x)-8), b.R.Intn(8)
					x[k] ^= 1 << uint(bit)
					what = fmt.Sprintf("with bit %d of byte %d flipped", bit, k)
				case 3:
					k := 8 + b.R.Intn(len(x)-8)
					x = append(append(append([]byte{}, x[:k]...), byte(b.R.Intn(256))), x[k:]...)
					what = fmt.Sprintf("with a byte inserted at %d", k)
				}
				if err := os.WriteFile(file, x, 0o600); err != nil {
					panic(err)
				}
				b.Casef("a file %s", what)
				b.Seen(what)
				b.Count("damaged files", 1)
				var got *T
				if p := guard(func() { got = to.EvalT(sfn("Get", str(file))) }); p != nil {
					b.Fail("damage-panic", "Get of a file %s: %v", what, p)
					to = newSess()
					to.Run("x1 = 8; f1[p_] := 9")
					continue
				}
				now := state(to, []string{"x1", "f1"})
				if same(got, sys("$Failed")) {
					if d := diffDefs(own, now); d != "" {
						b.Fail("damage-partial", "Get of a file %s failed and changed %s", what, d)
					}
					continue
				}
				// It may still read: then as it was saved.
				if d := diffDefs(state(a, []string{"x1", "f1"}), now); d != "" {
					b.Fail("damage-read", "Get of a file %s gives %s; %s", what, got.Key(), d)
				}
				to.Run("ClearAll[x1, f1]; x1 = 8; f1[p_] := 9")
			}
			// files that cannot be read or written
			none := c.Scratch + "/none" + fmt.Sprint(b.Idx) + "/x"
			for _, call := range []*T{sfn("Get", str(none)), sfn("ReadList", str(none)), sfn("Save", str(none), list(str("Global`x1"))), sfn("Get", str(c.Scratch)), sfn("Save", str(c.Scratch), list(str("Global`x1")))} {
				b.Casef("%s", call.Src())
				if got := to.EvalT(call); !same(got, sys("$Failed")) {
					b.Fail("no file", "%s gives %s", call.Src(), got.Key())
				}
			}
		})
		c.Batch("text", c.N(24, 15), func(b *B) {
			s, plain := newSess(), newSess()
			g := evalGen{b.R}
			file := path(b, "t")
			defer os.Remove(file)
			for i := 0; i < 6; i++ {
				s.Clear(names...)
				plain.Clear(names...)
				text := ""
				var all []*T
				last := sys("Null")
				for k := 1 + b.R.Intn(8); k > 0; k-- {
					t := g.expr(2, len(evalNames))
					if b.R.Intn(2) == 0 {
						t = fileDef(b.R, g)
					}
					if t.size() > 100 {
						continue
					}
					src := t.Src()
					if strings.ContainsAny(src, "\n") || !same(s.Parse(src), t) {
						continue
					}
					text += src + pick(b.R, "\n", "\n\n", " (* a, \" [ *)\n", "\n(* *)\n")
					last = plain.EvalT(plain.Parse(src))
				}
				if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
					panic(err)
				}
				b.Case(text)
				b.Seen(text)
				b.Count("text files", 1)
				if got := s.EvalT(sfn("Get", str(file))); !same(got, last) {
					b.Fail("text", "Get of\n%s\ngives %s, expected %s", text, clip(got.Key(), 150), clip(last.Key(), 150))
				}
				if d := diffDefs(state(plain, names), state(s, names)); d != "" {
					b.Fail("text-definitions", "after Get of\n%s\n%s", text, d)
				}
				// by name, on a path
				short := file[strings.LastIndex(file, "/")+1:]
				s.Clear(names...)
				if got := s.EvalT(sfn("Block", list(sfn("Set", sys("$Path"), list(str(c.Scratch+"/none"), str(c.Scratch)))), sfn("Get", str(short)))); !same(got, last) {
					b.Fail("path", "Get on a $Path gives %s, expected %s", clip(got.Key(), 150), clip(last.Key(), 150))
				}
				// With these definitions, a file that makes none.
				text, all = "", nil
				for k := b.R.Intn(8); k > 0; k-- {
					t := g.expr(2, len(evalNames))
					if src := t.Src(); t.size() < 100 && !strings.ContainsAny(src, "\n") && same(s.Parse(src), t) {
						text += src + pick(b.R, "\n", "\n\n", " (* a, \" [ *)\n", "\n(* *)\n")
						all = append(all, plain.EvalT(t))
					}
				}
				if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
					panic(err)
				}
				b.Casef("%s", text)
				if got := s.EvalT(sfn("ReadList", str(file))); !same(got, list(all...)) {
					b.Fail("ReadList", "ReadList of\n%s\ngives %s, expected %s", text, clip(got.Key(), 300), clip(list(all...).Key(), 300))
				}
			}
		})
	})
}
