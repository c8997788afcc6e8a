prop("P17", "Any input text is parsed or rejected, never crashes or hangs",
 "For every text given as input (one expression, a file or a list of expressions) the interpreter returns, in time bounded by the text's size, either an expression or a syntax error that it reports; it never panics, ends the process or hangs. What was parsed can be printed in every form, and afterwards the session still computes as before.",
 ["inputs"], "all byte strings as input",
 "Tests parse valid programs; totality is about every text, above all the malformed ones.",
 ["expreduce/parser/interp.go", "expreduce/parser/reader.go", "expreduce/easyrun.go", "expreduce/string.go"],
 [("lexer wrapper and error recovery", "expreduce/parser/interp.go"), ("file reader", "expreduce/parser/reader.go"), ("string forms", "expreduce/string.go and toString functions of builtins")],
 "runtime monitor: crash, process-death and CPU-time watchdog over generated and damaged input text",
 "Held on about 220,000 texts per quick run; a text that uses more than 60 s of CPU time counts as a hang.",
 """Oracle: the process survives, no panic escapes, the case ends, and a probe expression still evaluates to its value afterwards. Workload:
token soup over the language's operators and names, valid programs damaged by deletion, duplication, splicing and truncation, random bytes, and
large inputs (long and deeply nested). Each text goes through the single-expression, the whole-file and the expression-list entry points; every
parse is printed in all forms and evaluated inside Hold.""")
