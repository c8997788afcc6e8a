prop("P08", "Replacement applies exactly the given rules",
 "ReplaceAll replaces every outermost part that a rule matches (and, under a Flat head, the matching terms) by the right-hand side with the pattern's names replaced by what they matched, and nothing else; a list of rules is applied one after the other. Replace looks at the whole expression only and takes the first rule that matches; ReplaceRepeated repeats until nothing changes; ReplacePart replaces exactly the parts at the given positions. A rule whose condition is not true does not apply. Immediate right-hand sides are evaluated once, delayed ones once for each replacement and after it; the parts bound by sequence patterns become separate arguments. The substitution primitives of the matcher package replace exactly the bound symbols and leave their input alone.",
 ["inputs"], "all expressions and lists of rules of the supported forms",
 "Replacement combines the matcher, substitution, attributes and evaluation control; capture, double substitution and rules applied to already replaced parts only go wrong for certain shapes.",
 ["expreduce/builtin_replacement.go", "expreduce/replace.go", "expreduce/matcher/pdreplace.go", "expreduce/resources/replacement.m"],
 [("ReplaceAll, ReplaceRepeated, Replace, ReplacePart", "expreduce/builtin_replacement.go"), ("ReplaceAll, Replace, tryFlatReplace", "expreduce/replace.go"), ("ReplacePD", "expreduce/matcher/pdreplace.go")],
 "runtime monitor: comparison of every result with a reference rewriter",
 "Held on about 67,000 pairs of an expression and rules per quick run. Pairs for which several results are possible (a rule matches in several ways with different results) are left out and counted.",
 """Oracle: `refreplace.go` on top of the reference matcher. The rules are made by generalising parts of the subject, so about half of the cases replace something.
Counters count evaluations of right-hand sides; the substitution API (ReplacePD) is compared with a direct substitution on random terms.""")
