package main

import (
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce/logging"
	"github.com/corywalker/expreduce/expreduce/timecounter"
	gologging "github.com/op/go-logging"
)

// tcModel is what a counter must hold.
type tcModel [4]map[string]*tcEntry
type tcEntry struct {
	time  float64
	count int64
}

func newTC() *tcModel {
	m := &tcModel{}
	for i := range m {
		m[i] = map[string]*tcEntry{}
	}
	return m
}

func (m *tcModel) add(sec int, key string, t float64) {
	e := m[sec][key]
	if e == nil {
		e = &tcEntry{}
		m[sec][key] = e
	}
	e.time += t
	e.count++
}

func (m *tcModel) merge(o *tcModel) {
	for i := range m {
		type kv struct {
			k string
			v tcEntry
		}
		var all []kv
		for k, v := range o[i] {
			all = append(all, kv{k, *v})
		}
		for _, x := range all {
			e := m[i][x.k]
			if e == nil {
				e = &tcEntry{}
				m[i][x.k] = e
			}
			e.time += x.v.time
			e.count += x.v.count
		}
	}
}

type tcLine struct {
	time  float64
	count int64
	key   string
}

// parseTC reads a printed group: four sections of "time, count, key" lines.
func parseTC(s string) ([4][]tcLine, string) {
	var out [4][]tcLine
	sec := 0
	for _, line := range strings.Split(s, "\n") {
		if line == "" {
			sec++
			continue
		}
		if sec > 3 {
			return out, "more than four sections"
		}
		f := strings.SplitN(line, ", ", 3)
		if len(f) != 3 {
			return out, fmt.Sprintf("bad line %q", line)
		}
		t, e1 := strconv.ParseFloat(f[0], 64)
		n, e2 := strconv.ParseInt(f[1], 10, 64)
		if e1 != nil || e2 != nil {
			return out, fmt.Sprintf("bad line %q", line)
		}
		out[sec] = append(out[sec], tcLine{t, n, f[2]})
	}
	return out, ""
}

// checkTC compares what a group prints with the model.
func checkTC(g *timecounter.Group, m *tcModel) string {
	got, bad := parseTC(g.String())
	if bad != "" {
		return bad
	}
	for i := range got {
		seen := map[string]bool{}
		last := math.Inf(1)
		for _, l := range got[i] {
			if seen[l.key] {
				return fmt.Sprintf("section %d lists %q twice", i, l.key)
			}
			seen[l.key] = true
			e := m[i][l.key]
			if e == nil {
				return fmt.Sprintf("section %d lists %q, which was never added", i, l.key)
			}
			if e.time != l.time || e.count != l.count {
				return fmt.Sprintf("section %d says %v s in %d calls for %q, added were %v s in %d", i, l.time, l.count, l.key, e.time, e.count)
			}
			if l.time > last {
				return fmt.Sprintf("section %d is not by falling time at %q", i, l.key)
			}
			last = l.time
		}
		min := len(m[i])
		if min > 25 {
			min = 25
		}
		if len(got[i]) < min {
			return fmt.Sprintf("section %d lists %d keys of %d", i, len(got[i]), len(m[i]))
		}
		for k, e := range m[i] {
			if !seen[k] && e.time > last {
				return fmt.Sprintf("section %d leaves out %q, which took longer than a listed one", i, k)
			}
		}
	}
	return ""
}

var tcKeys = []string{"", "f[1]", "a, b", "x + y", "Sin[x], 3", "é", "%v", "Plus"}

func tcKey(b *B, many bool) string {
	if many && b.R.Intn(2) == 0 {
		return fmt.Sprintf("k%d", b.R.Intn(60))
	}
	return tcKeys[b.R.Intn(len(tcKeys))]
}

func init() {
	register("P23", "random histories of AddTime, Update and Init over several time counter groups against a model (exact dyadic times); random histories of logger calls with the log lines read back; random programs run plain, with profiling, with debug logging and under Trace, results compared; distinct = distinct histories or programs", func(c *Ctx) {
		c.Batch("counter", c.N(60, 40), func(b *B) {
			for i := 0; i < 60; i++ {
				var gs [3]timecounter.Group
				var ms [3]*tcModel
				hist := []string{}
				for k := range gs {
					gs[k].Init()
					ms[k] = newTC()
				}
				many := b.R.Intn(3) == 0
				n := b.R.Intn(60)
				if many {
					n += 100
				}
				for k := 0; k < n; k++ {
					j := b.R.Intn(3)
					switch b.R.Intn(14) {
					case 0:
						o := b.R.Intn(3)
						hist = append(hist, fmt.Sprintf("g%d.Update(g%d)", j, o))
						b.Case(strings.Join(hist, "; "))
						gs[j].Update(&gs[o])
						ms[j].merge(ms[o])
						if w := checkTC(&gs[o], ms[o]); w != "" {
							b.Fail("update-source", "the group read from: %s", w)
						}
					case 1:
						if b.R.Intn(6) == 0 {
							hist = append(hist, fmt.Sprintf("g%d.Init()", j))
							gs[j].Init()
							ms[j] = newTC()
						}
					default:
						key := tcKey(b, many)
						t := float64(b.R.Intn(1<<uint(b.R.Intn(12)))) / 64
						sec := b.R.Intn(4)
						hist = append(hist, fmt.Sprintf("g%d.AddTime(%d, %q, %v)", j, sec, key, t))
						b.Case(strings.Join(hist, "; "))
						switch sec {
						case 0:
							gs[j].AddTime(timecounter.CounterGroupDefTime, key, t)
						case 1:
							gs[j].AddTime(timecounter.CounterGroupLHSDefTime, key, t)
						case 2:
							gs[j].AddTime(timecounter.CounterGroupEvalTime, key, t)
						case 3:
							gs[j].AddTime(timecounter.CounterGroupHeadEvalTime, key, t)
						}
						ms[j].add(sec, key, t)
					}
					if k%7 == 0 || k == n-1 {
						for x := range gs {
							if w := checkTC(&gs[x], ms[x]); w != "" {
								b.Fail("counter", "group %d: %s", x, w)
							}
						}
					}
					b.Count("counter_ops", 1)
				}
				b.Seen(strings.Join(hist, ";"))
			}
		})
		c.Batch("logger", c.N(24, 30), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				for i := 0; i < 40; i++ {
					var l logging.CASLogger
					l.SetUpLogging()
					l.DebugOff()
					state, level, prof := false, gologging.ERROR, false
					hist := []string{"SetUpLogging(); DebugOff()"}
					for k := 0; k < 30; k++ {
						off := fsize(fe)
						want := ""
						switch b.R.Intn(9) {
						case 0:
							level = []gologging.Level{gologging.CRITICAL, gologging.ERROR, gologging.WARNING, gologging.NOTICE, gologging.INFO, gologging.DEBUG}[b.R.Intn(6)]
							hist = append(hist, fmt.Sprintf("DebugOn(%v)", level))
							l.DebugOn(level)
							state, prof = true, true
						case 1:
							if b.R.Intn(2) == 0 {
								hist = append(hist, "DebugOff()")
								l.DebugOff()
								state, level, prof = false, gologging.ERROR, false
							}
						case 2:
							state = b.R.Intn(3) > 0
							hist = append(hist, fmt.Sprintf("SetDebugState(%v)", state))
							l.SetDebugState(state)
						case 3:
							prof = b.R.Intn(2) == 0
							hist = append(hist, fmt.Sprintf("SetProfiling(%v)", prof))
							l.SetProfiling(prof)
						case 4, 5:
							m := fmt.Sprintf("m%d", b.R.Intn(1000))
							hist = append(hist, "Debugf "+m)
							l.Debugf("<%s|%d>", m, k)
							if state && level >= gologging.DEBUG {
								want = fmt.Sprintf("<%s|%d>", m, k)
							}
						case 6, 7:
							m := fmt.Sprintf("m%d", b.R.Intn(1000))
							hist = append(hist, "Infof "+m)
							l.Infof("<%s|%d>", m, k)
							if state && level >= gologging.INFO {
								want = fmt.Sprintf("<%s|%d>", m, k)
							}
						default:
							m := fmt.Sprintf("m%d", b.R.Intn(1000))
							hist = append(hist, "Errorf "+m)
							l.Errorf("<%s|%d>", m, k)
							if level >= gologging.ERROR {
								want = fmt.Sprintf("<%s|%d>", m, k)
							}
						}
						b.Case(strings.Join(hist, "; "))
						if l.IsProfiling() != prof {
							b.Fail("profiling", "IsProfiling() is %v", !prof)
						}
						got := strings.TrimRight(outTail(fe, off), "\n")
						if want == "" && got != "" {
							b.Fail("log-unwanted", "logged %q", got)
						}
						if want != "" && (!strings.HasSuffix(got, want) || strings.Contains(got, "\n")) {
							b.Fail("log-lost", "logged %q, want a line ending in %q", got, want)
						}
						b.Count("logger_ops", 1)
					}
					b.Seen(strings.Join(hist, ";"))
				}
			})
		})
		c.Batch("neutral", c.N(48, 30), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				plain, prof, dbg := newSess(), newSess(), newSess()
				for i := 0; i < 20; i++ {
					lines := newProg(b.R).prog(4+b.R.Intn(5), 2+b.R.Intn(2))
					for k, line := range lines {
						b.Case(strings.Join(lines[:k+1], "\n"))
						var want *T
						if guard(func() { want = plain.Run(line) }) != nil {
							break
						}
						prof.es.SetProfiling(true)
						if got := prof.Run(line); !same(got, want) {
							b.Fail("profiling-changes", "gives %s with profiling, %s without", got.Src(), want.Src())
						}
						if i < 6 {
							dbg.Run("ExpreduceSetLogging[True, " + pick(b.R, "Debug", "Info", "Notice") + "]")
							if got := dbg.Run(line); !same(got, want) {
								b.Fail("logging-changes", "gives %s with logging, %s without", got.Src(), want.Src())
							}
							dbg.Run("ExpreduceSetLogging[False, Debug]")
							fe.Truncate(0)
						}
						b.Count("lines", 1)
					}
					b.Seen(strings.Join(lines, "\n"))
					fo.Truncate(0)
				}
				// What profiling recorded: one evaluation time for each head time.
				b.Case("the counters after the programs")
				if w := plain.es.GetTimeCounter().String(); strings.TrimSpace(w) != "" {
					b.Fail("unprofiled", "times were recorded without profiling: %.200s", w)
				}
				got, bad := parseTC(prof.es.GetTimeCounter().String())
				if bad == "" {
					for sec, ls := range got {
						if len(ls) == 0 {
							b.Fail("profile-empty", "section %d recorded nothing", sec)
						}
					}
				}
			})
		})
		c.Batch("counts", c.N(8, 20), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				s := newSess()
				s.Run("kd[0] = 0")
				for i := 0; i < 12; i++ {
					s.es.GetTimeCounter().Init()
					s.es.SetProfiling(true)
					wantHead, wantEval := map[string]int64{}, map[string]int64{}
					defs := int64(0)
					for k := 0; k < 12; k++ {
						h := pick(b.R, "ka", "kb", "kd")
						n := int64(b.R.Intn(3))
						t := fn(h, in(n))
						s.es.Eval(t.Ex())
						wantHead[h]++
						wantEval[fmt.Sprintf("%s[%d]", h, n)]++
						if h == "kd" {
							defs++
						}
					}
					s.es.SetProfiling(false)
					b.Casef("profiled evaluations %v", wantEval)
					got, bad := parseTC(s.es.GetTimeCounter().String())
					if bad != "" {
						b.Fail("counts-format", "%s", bad)
					}
					cmp := func(sec int, want map[string]int64) {
						g := map[string]int64{}
						for _, l := range got[sec] {
							g[l.key] = l.count
						}
						if fmt.Sprint(g) != fmt.Sprint(want) {
							b.Fail("counts", "section %d counts %v, want %v", sec, g, want)
						}
					}
					cmp(2, wantEval)
					cmp(3, wantHead)
					d := int64(0)
					for _, l := range got[0] {
						d += l.count
					}
					if d != defs {
						b.Fail("def-counts", "%d definition attempts recorded, want %d", d, defs)
					}
					b.Seen(b.desc)
				}
			})
		})
		c.Batch("trace", c.N(32, 30), func(b *B) {
			swapStd(b, func(fo, fe *os.File) {
				a, t := newSess(), newSess()
				for i := 0; i < 25; i++ {
					lines := newProg(b.R).prog(4+b.R.Intn(4), 1+b.R.Intn(2))
					for k, line := range lines {
						b.Case("Trace of each of\n" + strings.Join(lines[:k+1], "\n"))
						var want *T
						if guard(func() { want = a.Run(line) }) != nil {
							break
						}
						got := t.Run("Trace[" + line + "]")
						if !got.hasHead("List") {
							b.Fail("trace-shape", "the trace is %s", got.Src())
						} else if n := len(got.A); n > 1 {
							// A compound value that was evaluated before is not listed again.
							last := got.A[n-1]
							if want.isAtom() && (!last.hasHead("HoldForm") || len(last.A) != 2 || !same(last.A[1], want)) {
								b.Fail("trace-last", "the trace ends in %s, the value is %s", last.Src(), want.Src())
							}
							b.Count("trace_events", int64(countEvents(got)))
						}
						if t.es.GetTrace() != nil {
							b.Fail("trace-left", "the session still traces")
						}
					}
					// The effects were the same.
					if x, y := a.Run("{u1, u2, u3, u4, sv}"), t.Run("{u1, u2, u3, u4, sv}"); !same(x, y) {
						b.Fail("trace-effects", "the variables are %s after tracing, %s without", y.Src(), x.Src())
					}
					b.Seen(strings.Join(lines, "\n"))
					fo.Truncate(0)
				}
			})
		})
	})
}

func countEvents(t *T) int {
	n := 0
	t.walk(func(x *T) {
		if x.hasHead("HoldForm") {
			n++
		}
	})
	return n
}
