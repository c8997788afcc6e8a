prop("P11", "Attributes govern how a call's arguments are evaluated and arranged",
 "For every set of attributes, given by any sequence of SetAttributes, ClearAttributes and assignments to Attributes[f], Attributes[f] is that set, sorted, and a call of f (or of anything whose value is f) is evaluated so: each argument once, left to right, save the first under HoldFirst, the rest under HoldRest, all under HoldAll and HoldAllComplete, which are not evaluated at all; a Sequence becomes separate arguments save under SequenceHold and HoldAllComplete; Evaluate overrides holding and Unevaluated evaluation, except under HoldAllComplete; Flat removes nested calls of f; Orderless sorts canonically; Listable maps over lists of equal length; then definitions apply. Other attributes change none of this, and the attributes of one symbol do not affect another. Every subset of the attribute names passes through the Go interface unchanged; unknown names are ignored.",
 ["inputs", "histories"], "all sets of attributes and all calls",
 "Attributes combine: the tests check a few one at a time.",
 ["expreduce/eval.go", "expreduce/atoms/ex_symbol.go", "expreduce/evalstate.go", "expreduce/builtin_list.go", "expreduce/builtin_system.go"],
 [("evalExpression, mergeSequences", "expreduce/eval.go"), ("threadExpr", "expreduce/builtin_list.go"), ("StringsToAttributes, AttrsToStrings, AttrsToSymList, Attrs", "expreduce/atoms/ex_symbol.go"), ("defineAttrs", "expreduce/evalstate.go")],
 "runtime monitor: reference evaluator that knows only the attributes, with a log of the evaluation of arguments",
 "Held on 24,000 calls with 30,000 logged argument evaluations per quick run, and on 3,000 subsets of the 19 names. A call Unevaluated leaves without a rule loses its Unevaluated here (f[Unevaluated[1 + 1]] becomes f[2]); that is outside the statement. Matching under Flat and Orderless is P07.",
 """Heads get random attribute sets through the language; calls contain arguments with a logged side effect, variables with values (also sequences and lists), Sequence, Evaluate, Unevaluated, lists, aliases of the heads
and calls of the same head. A small evaluator that knows only the attributes predicts the result and the log. The Go functions between names and attribute records are driven with every single name, every omission of one, and random subsets in random order.""")
