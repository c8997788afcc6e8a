prop("P07", "Pattern matching is sound and complete",
 "A term matches a pattern exactly when there is a way to assign values to the pattern's names that satisfies every blank, head restriction, test, condition, alternative, exception, repetition, default and sequence in it, taking the Orderless, Flat and OneIdentity attributes of the heads into account. The ways to match that are enumerated (by the match iterator, ReplaceList, and the application of rules and definitions) are exactly those; sequence patterns take the shortest leading sequences first; matching leaves the term and the pattern as they are.",
 ["inputs"], "all terms and patterns of the supported forms",
 "There are combinatorially many ways for sequences, Orderless and Flat heads to interact with repeated names; unit tests list a few dozen, and code that prunes or commits too early is right on them.",
 ["expreduce/matcher/matchq.go", "expreduce/matcher/allocations.go", "expreduce/matcher/parse_form.go", "expreduce/matcher/blank.go", "expreduce/matcher/pdmanager.go", "expreduce/builtin_pattern.go"],
 [("NewMatchIter, IsMatchQ, assignedMatchIter, sequenceMatchIter", "expreduce/matcher/matchq.go"), ("allocIter, assnIter", "expreduce/matcher/allocations.go"), ("parseForm", "expreduce/matcher/parse_form.go"), ("defineSequence", "expreduce/matcher/pdmanager.go"), ("MatchQ, ReplaceList", "expreduce/builtin_pattern.go")],
 "runtime monitor: comparison of the whole set of matches with a brute-force reference matcher",
 "Held on about 245,000 pairs of a term and a pattern per quick run (up to 6 elements per level, 60% matching). Conditions use only names of their own pattern; tests and conditions inside Flat heads are on single blanks; Except contains no names.",
 """Oracle: `refmatch.go`, which tries every assignment (all segmentations, all subsets for Orderless, all groupings for Flat). Patterns are made by
generalising the term (so most match), with shared names, then varied; unrelated terms are used too. The set of bindings from the iterator must equal the
reference's; MatchQ, ReplaceList and a definition with the pattern must agree as well; ReplaceList's order is checked for pure sequence patterns.""")
