package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// defsOf takes a snapshot of the rules of the symbols that sel selects.
func defsOf(es expreduceapi.EvalStateInterface, sel func(string) bool) map[string]string {
	out := map[string]string{}
	for _, k := range es.GetDefinedMap().Keys() {
		if !sel(k) {
			continue
		}
		d, ok := es.GetDefined(k)
		if !ok {
			continue
		}
		var sb strings.Builder
		for _, dv := range d.Downvalues {
			if dv.Rule == nil {
				continue
			}
			fromEx(dv.Rule).key(&sb)
			sb.WriteString("\n")
		}
		if d.DefaultExpr != nil {
			fromEx(d.DefaultExpr).key(&sb)
		}
		fmt.Fprintf(&sb, "%+v", d.Attributes)
		out[k] = sb.String()
	}
	return out
}

var uniqRE = regexp.MustCompile(`\$[0-9]+`)

// noUniq removes the numbers that make local names unique.
func noUniq(k string) string { return uniqRE.ReplaceAllString(k, "$$N") }

// withoutAdded reports whether new is old with more rules.
func withoutAdded(old, new string) bool {
	o, n := strings.Split(old, "\n"), strings.Split(new, "\n")
	if o[len(o)-1] != n[len(n)-1] {
		return false
	}
	k := 0
	for _, l := range n {
		if k < len(o) && l == o[k] {
			k++
		}
	}
	return k == len(o)
}

// diffDefs names the first difference between two snapshots.
func diffDefs(a, b map[string]string) string { return diffDefsMod(a, b, false) }

func diffDefsMod(a, b map[string]string, mayAdd bool) string {
	ks := []string{}
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v, ok := b[k]; !ok {
			return k + " is gone"
		} else if v != a[k] && !(mayAdd && withoutAdded(a[k], v)) {
			return fmt.Sprintf("the definition of %s changed\nfrom %s\nto   %s", k, a[k], v)
		}
	}
	return ""
}
