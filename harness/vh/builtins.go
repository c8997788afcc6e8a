package main

import (
	"sort"
	"strings"
)

// Builtins whose purpose is an effect outside the session, that end the
// process, wait for time to pass, load the missing Rubi rules, or that by their meaning
// iterate until a condition holds (random arguments need not ever meet it).
var builtinSkip = map[string]bool{
	"Get": true, "Save": true, "ReadList": true, "Pause": true, "LoadRubi": true,
	"FixedPoint": true, "FixedPointList": true, "NestWhile": true, "NestWhileList": true,
	"Integrate": true, "Int": true, "Import": true, "Export": true,
}

// builtinNames lists the System` functions of the interpreter, from its own
// definition table.
func builtinNames(s *Sess) []string {
	out := []string{}
	for _, k := range s.es.GetDefinedMap().Keys() {
		if !strings.HasPrefix(k, "System`") {
			continue
		}
		n := strings.TrimPrefix(k, "System`")
		if builtinSkip[n] || n == "" || strings.HasPrefix(n, "$") || strings.Contains(n, "Rubi") {
			continue
		}
		d, ok := s.es.GetDefined(k)
		if !ok || (len(d.Downvalues) == 0 && d.LegacyEvalFn == nil) {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// assignOps change definitions, contexts or attributes. They run in a session
// of their own, on arguments that cannot set up a self-referential definition
// (which the language itself evaluates for ever).
var assignOps = map[string]bool{}

func init() {
	for _, n := range strings.Split("Set SetDelayed TagSet TagSetDelayed UpSet UpSetDelayed AddTo SubtractFrom TimesBy DivideBy Increment Decrement PreIncrement PreDecrement AppendTo PrependTo Unset Clear ClearAll Remove SetAttributes ClearAttributes Protect Unprotect Begin End BeginPackage EndPackage Attributes DownValues For While Do Default Module With Block Unique ExpreduceSetLogging CompoundExpression", " ") {
		assignOps[n] = true
	}
}
