package main

import (
	"fmt"
	"regexp"
	"runtime/debug"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// Sess is one interpreter session.
type Sess struct {
	es expreduceapi.EvalStateInterface
}

func newSess() *Sess { return &Sess{expreduce.NewEvalState()} }

// Run evaluates source text and returns a snapshot of the result.
func (s *Sess) Run(src string) *T { return fromEx(expreduce.EvalInterp(src, s.es)) }

// Runf is Run with formatting.
func (s *Sess) Runf(f string, a ...interface{}) *T { return s.Run(fmt.Sprintf(f, a...)) }

// EvalT evaluates a term that never goes through the parser.
func (s *Sess) EvalT(t *T) *T { return fromEx(s.es.Eval(t.Ex())) }

// Parse parses without evaluating.
func (s *Sess) Parse(src string) *T { return fromEx(parser.Interp(src, s.es)) }

// Form prints an interpreter term in a given form.
func (s *Sess) Form(e expreduceapi.Ex, form string) string {
	return e.StringForm(expreduce.ActualStringFormArgsFull(form, s.es))
}

// Clear removes all values the workload gave to names.
func (s *Sess) Clear(names ...string) {
	for _, n := range names {
		expreduce.EvalInterp("ClearAll["+n+"]", s.es)
	}
}

// guard runs f and reports a panic of the code under test.
func guard(f func()) (panicked interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortBatch); ok {
				panic(r)
			}
			panicked = fmt.Sprintf("panic: %v at %s", r, panicSite(string(debug.Stack())))
		}
	}()
	f()
	return nil
}

var siteRE = regexp.MustCompile(`/(expreduce|pkg|wl@[^/]*)/([^ \n]*\.go:\d+)`)

// panicSite names the innermost frames of the code under test in a stack.
func panicSite(st string) string {
	if k := strings.LastIndex(st, "panic("); k >= 0 {
		st = st[k:]
	}
	sites := []string{}
	for _, m := range siteRE.FindAllStringSubmatch(st, -1) {
		if strings.Contains(m[2], "zz_verif") {
			break
		}
		sites = append(sites, m[2])
		if len(sites) == 3 {
			break
		}
	}
	return strings.Join(strings.Fields(strings.Join(sites, "<")), "")
}

var keptSessions = map[string]*Sess{}

// keptSess is a session that all batches of a check share.
func keptSess(id, setup string) *Sess {
	if s := keptSessions[id]; s != nil {
		return s
	}
	s := newSess()
	if setup != "" {
		s.Run(setup)
	}
	keptSessions[id] = s
	return s
}
