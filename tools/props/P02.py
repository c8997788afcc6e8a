prop("P02", "Evaluation does not change stored values or its inputs",
 "Evaluating an expression leaves every stored definition and every expression it was given as they were, except for the assignments it asks for. A value stored in a variable, the body of a delayed definition or rule, and a system definition can be used any number of times: the same evaluation in the same state gives the same result again.",
 ["inputs", "histories"], "all builtins applied to all stored values, and all histories of repeated use",
 "Builtins and the evaluator share sub-expressions with the definition store and some work in place; a test that uses a value once cannot see that the value was changed by the use.",
 ["expreduce/eval.go", "expreduce/evalstate.go", "expreduce/builtin_list.go", "expreduce/builtin_expression.go", "expreduce/builtin_functional.go", "expreduce/builtin_flowcontrol.go", "expreduce/builtin_sort.go", "expreduce/iterspec/iterspec.go", "expreduce/matcher/pdreplace.go", "expreduce/atoms/expression.go"],
 [("Eval, flattening, sequences, attributes", "expreduce/eval.go"), ("builtins that edit copies of their arguments", "expreduce/builtin_*.go legacyEvalFn"), ("Function application and replacement", "expreduce/matcher/pdreplace.go"), ("variables of iteration", "expreduce/iterspec/iterspec.go TakeVarSnapshot, RestoreVarSnapshot")],
 "runtime monitor: before/after snapshots of the definition store and of inputs, repeat-and-compare",
 "Held on about 42,000 calls, terms and programs per quick run (35,000 distinct). System definitions may gain remembered results (Fibonacci), nothing else. Calls that do not end within 6 s of CPU time are counted as undecided.",
 """Oracle: snapshots. Workloads: (calls) every builtin applied to variables holding values of every kind, the user's part of the definition
store compared after each call and the system's at the end of each session, and the call repeated; (terms) random terms evaluated through the API and
compared with a snapshot of themselves; (delayed) random programs as bodies of delayed definitions and rules, run repeatedly from the same state.""")
