prop("P06", "Evaluation is a repeatable fixpoint that depends on the definitions alone",
 "For all histories of definitions, redefinitions, ClearAll and attribute changes, and all inputs: evaluating an input twice gives the same result; evaluating a result gives the result itself; earlier inputs do not matter, only the definitions made (a session that made only the definitions gives the same); a redefined or cleared definition, or changed attributes, leave no trace, also in the bodies of delayed definitions and pure functions evaluated before; chains of rewrites run to their end however long. Results of builtin functions are also final.",
 ["inputs", "histories"], "all sessions without random numbers and time; values stored by Set are stored as evaluated (see the recorded finding)",
 "Evaluation marks expressions as evaluated and shares parts of definitions; whether a stale mark is ever seen depends on the order of inputs and definitions.",
 ["expreduce/eval.go", "expreduce/evalstate.go", "expreduce/atoms/ex_expression.go", "expreduce/matcher/pdreplace.go", "expreduce/definition_map.go"],
 [("the evaluation loop and its marks", "expreduce/eval.go"), ("definitions and attributes", "expreduce/evalstate.go"), ("instances of bodies", "expreduce/matcher/pdreplace.go")],
 "runtime monitor: differential against fresh sessions with only the definitions, and re-evaluation",
 "Held on about 9,000 definitions and 13,000 queries per quick run, apart from the recorded finding: values made by Set, and parts of held values that were evaluated, are not evaluated again when symbols in them get values.",
 """Histories over layered definitions (so that they end): own values, functions with several rules, attributes of inert heads. Each query runs twice, its result once more, and
in sessions that get all definitions without queries, and only the definitions left after redefinition and ClearAll. Chains of 1-700 rewrites through 1-3 functions,
values through values, and splitting of sequences. Results of random calls of 110 builtin functions are evaluated again.""")
