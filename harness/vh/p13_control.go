package main

import (
	"fmt"
	"strings"
)

const setup13 = "ClearAll[ev]; ev[k_Integer] := (evlog = Append[evlog, k]; k)"

// exitSites evaluates #2 for the values #1 ... of an iteration; V is the
// value of the current step, and X an expression that throws when V is K.
var exitSites = []struct {
	src  string
	from int // the first step
	open bool
}{
	{"Do[BODY[V], {V, N}]", 1, false},
	{"Do[BODY[V], {V, {LIST}}]", 1, false},
	{"Table[BODY[V], {V, N}]", 1, false},
	{"Sum[BODY[V], {V, N}]", 1, false},
	{"Product[BODY[V], {V, 1, N}]", 1, false},
	{"Map[Function[V, BODY[V]], {LIST}]", 1, false},
	{"Function[V, BODY[V]] /@ h[LIST]", 1, false},
	{"Scan[Function[V, BODY[V]], {LIST}]", 1, false},
	{"Select[{LIST}, Function[V, BODY[V]; True]]", 1, false},
	{"Array[Function[V, BODY[V]], N]", 1, false},
	{"MapIndexed[Function[V, BODY[V]][#1] &, {LIST}]", 1, false},
	{"Fold[Function[BODY[#2]], 0, {LIST}]", 1, false},
	{"FoldList[Function[BODY[#2]], 0, {LIST}]", 1, false},
	{"Nest[Function[V, BODY[V]; V + 1], 1, N]", 1, false},
	{"NestList[Function[V, BODY[V]; V + 1], 1, N]", 1, false},
	{"NestWhile[Function[V, BODY[V]; V + 1], 1, # <= N &]", 1, false},
	{"NestWhileList[Function[V, BODY[V]; V + 1], 1, # <= N &]", 1, false},
	{"FixedPoint[Function[V, If[V > N, V, BODY[V]; V + 1]], 1]", 1, false},
	{"FixedPointList[Function[V, If[V > N, V, BODY[V]; V + 1]], 1]", 1, false},
	{"AllTrue[{LIST}, Function[V, BODY[V]; True]]", 1, false},
	{"Cases[{LIST}, z_ /; (BODY[z]; True)]", 1, false},
	{"Count[{LIST}, z_ /; (BODY[z]; True)]", 1, false},
	{"{LIST} /. z_Integer :> BODY[z]", 1, false},
	{"Module[{V = 1}, While[V <= N, BODY[V]; V++]]", 1, false},
	{"Module[{V}, For[V = 1, V <= N, V = V + 1, BODY[V]]]", 1, false},
	{"Block[{V = 1}, While[BODY[V]; V < N, V++]]", 1, false},
	{"Function[V, BODY[V]][1]", 1, true},
	{"With[{V = 1}, BODY[V]]", 1, true},
	{"{BODY[1], BODY[2], BODY[3]}", 1, false},
	{"h[BODY[1], {BODY[2]}][BODY[3]]", 1, true},
	{"BODY[1] + BODY[2]*BODY[3]", 1, false},
	{"(BODY[1]; BODY[2]; BODY[3])", 1, false},
	{"BODY[1] < BODY[2] < BODY[3]", 1, false},
	{"If[BODY[1] == 1, BODY[2], BODY[5]]", 1, false},
	{"Which[BODY[1] == 5, BODY[6], BODY[2] == 2, BODY[3]]", 1, false},
	{"Switch[BODY[1], BODY[2], BODY[5], _, BODY[3]]", 1, false},
	{"BODY[1] == 1 && BODY[2] == 2 && BODY[3] == 3", 1, false},
	{"BODY[1] == 5 || BODY[2] == 5 || BODY[3] == 5", 1, false},
	{"Module[{u = BODY[1]}, BODY[2]; BODY[3]]", 1, false},
	{"Block[{u = BODY[1]}, BODY[2]; BODY[3]]", 1, false},
	{"With[{u = BODY[1], w = BODY[2]}, BODY[3]]", 1, false},
	{"Sort[{BODY[1], BODY[2], BODY[3]}]", 1, false},
	{"Join[{BODY[1]}, {BODY[2], BODY[3]}]", 1, false},
	{"Total[{BODY[1], BODY[2], BODY[3]}]", 1, false},
	{"{BODY[1], 5, 6}[[BODY[2]]]", 1, true},
	{"Reap[Sow[BODY[1]]; Sow[BODY[2]]; BODY[3]]", 1, false},
	{"MatchQ[BODY[1], BODY[2]]", 1, true},
	{"{BODY[1]} /. BODY[2] -> BODY[3]", 1, true},
}

func init() {
	register("P13", "random", func(c *Ctx) {
		c.Batch("programs", c.N(9000, 40), func(b *B) { refCheck(b, "P13", false) })
		c.Batch("exits", c.N(4000, 20), func(b *B) {
			s := keptSess("P13x", setup13)
			r := b.R
			e := exitSites[b.Idx%len(exitSites)]
			n := 1 + r.Intn(6)
			if !strings.Contains(e.src, "N") && !strings.Contains(e.src, "LIST") {
				n = strings.Count(e.src, "BODY[")
				for k := 5; k <= 6; k++ {
					if strings.Contains(e.src, fmt.Sprintf("BODY[%d]", k)) {
						n-- // is not reached
					}
				}
				if strings.Contains(e.src, "== 5 ||") {
					n = 3
				}
			}
			k := 1 + r.Intn(n+2)
			ls := []string{}
			for i := 1; i <= n; i++ {
				ls = append(ls, fmt.Sprint(i))
			}
			// How the body throws.
			body := pick(r, "(ev[V]; If[V == K, Throw[T]]; V)", "If[ev[V] == K, Throw[T], V]", "Which[ev[V] != K, V, True, Throw[T]]",
				"Module[{q = ev[V]}, If[q == K, Block[{wz = 1}, Throw[T]]]; q]", "(ev[V]; Do[If[V == K, Throw[T]], {q, 2}]; V)",
				"Switch[ev[V], K, Throw[T], _, V]", "(ev[V]; V*If[V == K, {1, Throw[T]}, 1])", "(Catch[ev[V]; If[V == K, Throw[thrown]]; V] /. thrown :> Throw[T])",
				"bf[V]")
			thrown := pick(r, "55", "{1, h}", "thr", `"s"`)
			bf := strings.NewReplacer("K", fmt.Sprint(k), "[T]", "["+thrown+"]").Replace
			if body == "bf[V]" {
				s.Run(bf("bf[vv_] := (ev[vv]; If[vv == K, Throw[T]]; vv)"))
			}
			v := pick(r, "vi", "vj")
			src := e.src
			for {
				i := strings.Index(src, "BODY[")
				if i < 0 {
					break
				}
				j := i + strings.IndexByte(src[i:], ']')
				src = src[:i] + strings.ReplaceAll(bf(body), "V", src[i+5:j]) + src[j+1:]
			}
			src = strings.NewReplacer("V", v, "LIST", strings.Join(ls, ", "), "N", fmt.Sprint(n)).Replace(protect(src))
			src = unprotect(src)
			out := src
			wrap := r.Intn(8)
			switch wrap {
			case 0:
				out = "(" + out + "; ev[90])"
			case 1:
				out = "{" + out + ", ev[90]}"
			case 2:
				out = "h[ev[91], " + out + ", ev[90]]"
			case 3:
				out = "Module[{t = " + out + "}, ev[90]; t]"
			case 4:
				out = "Do[" + out + "; ev[90], {tt, 1}]"
			case 5:
				out = "(res = " + out + "; ev[90])"
			case 6:
				out = "If[True, " + out + "; ev[90]]"
			}
			s.Run("res = 0; evlog = {}")
			full := "Catch[" + out + "]"
			b.Case(full)
			got := s.Run(full)
			log := s.Run("evlog")
			want := list()
			if wrap == 2 {
				want.A = append(want.A, in(91))
			}
			isThrown := k <= n
			for i := 1; i <= n && i <= k; i++ {
				want.A = append(want.A, in(int64(i)))
			}
			if !isThrown && wrap <= 6 {
				want.A = append(want.A, in(90))
			}
			b.Count("events", int64(len(log.A)-1))
			b.Seen(e.src + body + fmt.Sprint(n, k, wrap))
			if !same(log, want) {
				b.Fail("events", "%s: the events are %s, not %s", full, log.Src(), want.Src())
			}
			if isThrown && got.Src() != s.Parse("{" + thrown + "}").A[1].Src() {
				b.Fail("value", "%s gives %s, not %s", full, got.Src(), thrown)
			}
			if isThrown && s.Run("res").Src() != "0" {
				b.Fail("value", "%s assigns res", full)
			}
			if s.es.HasThrown() {
				b.Fail("value", "%s leaves the session in a throw", full)
				keptSessions["P13x"] = nil
			}
			if got := s.Run("1 + 1"); got.Src() != "2" {
				b.Fail("value", "after %s, 1 + 1 is %s", full, got.Src())
			}
		})
		c.Batch("undetermined", c.N(4000, 20), func(b *B) {
			// Conditions that are neither True nor False, beside others.
			s := keptSess("P13u", setup13)
			r := b.R
			k := int64(0)
			events := []*T{}
			type part struct {
				t   *T
				val *T // what it evaluates to
				ev  *T
			}
			gen := func() part {
				k++
				e := fn("ev", in(k))
				switch r.Intn(7) {
				case 0:
					return part{sfn("Equal", e, in(k)), boolT(true), in(k)}
				case 1:
					return part{sfn("Equal", e, in(k+1)), boolT(false), in(k)}
				case 2:
					return part{sym("x"), sym("x"), nil}
				case 3:
					return part{fn("h", e), fn("h", in(k)), in(k)}
				case 4:
					return part{e, in(k), in(k)}
				case 5:
					return part{boolT(true), boolT(true), nil}
				}
				return part{fn("h", sym("y")), fn("h", sym("y")), nil}
			}
			n := 1 + r.Intn(5)
			ps := []part{}
			for i := 0; i < n; i++ {
				ps = append(ps, gen())
			}
			see := func(p part) {
				if p.ev != nil {
					events = append(events, p.ev)
				}
			}
			var t, want *T
			switch kind := r.Intn(4); kind {
			case 0, 1:
				op, stop := "And", false
				if kind == 1 {
					op, stop = "Or", true
				}
				t, want = sfn(op), sfn(op)
				done := false
				for _, p := range ps {
					t.A = append(t.A, p.t)
					if done {
						continue
					}
					see(p)
					if same(p.val, boolT(stop)) {
						want, done = boolT(stop), true
					} else if !same(p.val, boolT(!stop)) {
						want.A = append(want.A, p.val)
					}
				}
				if !done && len(want.A) == 1 {
					want = boolT(!stop)
				} else if !done && len(want.A) == 2 {
					want = want.A[1]
				}
			case 2:
				t = sfn("Which")
				for i, p := range ps {
					body := fn("h", fn("ev", in(int64(50+i))))
					t.A = append(t.A, p.t, body)
					switch {
					case want != nil:
						want = &T{K: kExpr, A: append(append([]*T{}, want.A...), p.t, body)}
						if !want.hasHead("Which") {
							want = &T{K: kExpr, A: want.A[:len(want.A)-2]}
						}
					case same(p.val, boolT(true)):
						see(p)
						events = append(events, in(int64(50+i)))
						want = fn("h", in(int64(50+i)))
					case !same(p.val, boolT(false)):
						see(p)
						want = sfn("Which", p.val, body)
					default:
						see(p)
					}
				}
				if want == nil {
					want = sys("Null")
				}
			case 3:
				p := ps[0]
				see(p)
				t = sfn("If", p.t, fn("h", fn("ev", in(50))))
				if n > 1 {
					t.A = append(t.A, fn("h", fn("ev", in(51))))
				}
				switch {
				case same(p.val, boolT(true)):
					want = fn("h", in(50))
					events = append(events, in(50))
				case same(p.val, boolT(false)) && n > 1:
					want = fn("h", in(51))
					events = append(events, in(51))
				case same(p.val, boolT(false)):
					want = sys("Null")
				default:
					want = &T{K: kExpr, A: append([]*T{t.A[0], p.val}, t.A[2:]...)}
				}
			}
			if r.Intn(2) == 0 {
				t, want = fn("h", t), fn("h", want)
			}
			b.Case(t.Src())
			b.Seen(t.Src())
			s.Run("evlog = {}")
			got := s.EvalT(t)
			log := s.Run("evlog")
			b.Count("events", int64(len(events)))
			if !same(got, want) {
				b.Fail("undetermined", "%s gives %s, not %s", t.Src(), got.Src(), want.Src())
			} else if !same(log, list(events...)) {
				b.Fail("undetermined", "%s: the events are %s, not %s", t.Src(), log.Src(), list(events...).Src())
			}
		})
		c.Batch("examples", len(flowExamples), func(b *B) {
			e := flowExamples[b.Idx]
			s := keptSess("P13e", setup13)
			b.Case(e[0])
			s.Run("ClearAll[x, y, r, f, g]; evlog = {}")
			got := s.Run(e[0])
			log := s.Run("evlog")
			want := s.Parse("{" + e[1] + ", {" + e[2] + "}}")
			s.Run("ClearAll[x, y, r, f, g]")
			if !same(got, want.A[1]) || !same(log, want.A[2]) {
				b.Fail("example", "%s gives %s with events %s, not %s with {%s}", e[0], got.Src(), log.Src(), want.A[1].Src(), e[2])
			}
		})
	})
}

// Names of the language contain the placeholders V and N.

func protect(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "Nest", "\x01est"), "FixedPointList", "FixedPoint\x02ist")
}
func unprotect(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\x01", "N"), "\x02", "L")
}

// flowExamples are inputs with their values and the events on the way.
var flowExamples = [][3]string{
	{"If[x, ev[1], ev[2]]", "If[x, ev[1], ev[2]]", ""},
	{"If[ev[1] > x, ev[2]]", "If[1 > x, ev[2]]", "1"},
	{"If[False, ev[1]]", "Null", ""},
	{"If[ev[1] == 1, ev[2]]", "2", "1, 2"},
	{"Which[False, ev[1], x, ev[2], True, ev[3]]", "Which[x, ev[2], True, ev[3]]", ""},
	{"Which[ev[1] == 2, ev[2], ev[3] == 3, ev[4], ev[5], ev[6]]", "4", "1, 3, 4"},
	{"Which[False, ev[1]]", "Null", ""},
	{"Switch[ev[1], ev[2], 5, ev[1], ev[7], _, ev[8]]", "7", "1, 2, 1, 7"},
	{"Switch[{1, ev[2]}, {_, 3}, ev[3], {_}, ev[4], {_, y_}, ev[5]]", "5", "2, 5"},
	{"ev[0] && True", "0", "0"},
	{"True && x && ev[1] == 2 && ev[3]", "False", "1"},
	{"x || ev[1] == 1 || ev[3]", "True", "1"},
	{"(ev[1]; ev[2];)", "Null", "1, 2"},
	{"Hold[ev[1]]", "Hold[ev[1]]", ""},
	{"r = 0; While[r < 3, r = r + 1; If[r == 2, Break[]]; ev[r]]; r", "2", "1"},
	{"f[n_] := (ev[n]; Return[n*2]; ev[9]); f[3]", "6", "3"},
	{"f[n_] := (If[n > 2, Return[ev[n]]]; ev[8]); {f[3], f[1]}", "{3, 8}", "3, 8"},
	{"f[n_] := g[n] + 1; g[n_] := (Return[n]; ev[9]); f[3]", "4", ""},
	{"Do[ev[x*10 + y], {x, 2}, {y, 2}]", "Null", "11, 12, 21, 22"},
	{"Do[If[y == 2, Break[]]; ev[x*10 + y], {x, 2}, {y, 3}]", "Null", "11"},
	{"Do[Do[If[y == 2, Break[]]; ev[x*10 + y], {y, 3}], {x, 2}]", "Null", "11, 21"},
	{"Do[ev[7], 3]", "Null", "7, 7, 7"},
	{"r = 2; Do[ev[7], r]", "Null", "7, 7"},
	{"Table[ev[x], {x, 5, 1, -2}]", "{5, 3, 1}", "5, 3, 1"},
	{"For[x = ev[1], x < 4, x = ev[x + 1], ev[10*x]]; x", "4", "1, 10, 2, 20, 3, 30, 4"},
	{"Catch[Throw[Throw[3]]]", "3", ""},
	{"Catch[Throw[Catch[Throw[ev[3]]] + 1]; ev[4]]", "4", "3"},
	{"Catch[Catch[Throw[ev[1]]]; ev[2]; Throw[ev[3]]; ev[4]]", "3", "1, 2, 3"},
	{"Catch[Reap[Sow[1]; Throw[3]]]; Reap[Sow[4]; 5]", "{5, {{4}}}", ""},
	{"Reap[Sow[1]; Reap[Sow[2]; ev[7]]; Sow[3]; 9]", "{9, {{1, 3}}}", "7"},
	{"r := Throw[ev[5]]; {Catch[r; 1], Catch[r; 2]}", "{5, 5}", "5, 5"},
	{"f[0] := Throw[ev[0]]; f[n_] := (f[n - 1]; ev[n]); Catch[f[5]]", "0", "0"},
	{"Catch[Table[Throw[ev[1]], {x, 3}]; ev[2]]", "1", "1"},
	{"Catch[Table[ev[x], {x, Throw[3]}]]", "3", ""},
	{"Catch[ev[1]]", "1", "1"},
	{"FixedPoint[(ev[#]; If[# < 3, # + 1, #]) &, 0]", "3", "0, 1, 2, 3"},
	{"NestWhileList[(ev[#]; # + 1) &, 0, (ev[10*#]; # < 3) &]", "{0, 1, 2, 3}", "0, 0, 10, 1, 20, 2, 30"},
	{"ConstantArray[ev[1], 3]", "{1, 1, 1}", "1"},
	{"Nest[ev, 3, 0]", "3", ""},
	{"Fold[ev, 3, {}]", "3", ""},
	{"ev[3] + ev[1]*ev[2]^ev[4]", "19", "3, 1, 2, 4"},
	{"TrueQ[ev[1] == 1]", "True", "1"},
}
