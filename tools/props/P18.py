prop("P18", "No call of a builtin function crashes the session",
 "Every builtin function, applied to any number of arguments of any kind and shape (wrong types, wrong counts, malformed patterns and rules, empty lists), returns a result or stays unevaluated; it never panics or ends the process. The result prints in every form, and the session goes on.",
 ["inputs"], "all builtin functions and all argument lists",
 "Tests call builtins as documented; robustness is about every other call.",
 ["expreduce/builtin_arithmetic.go", "expreduce/builtin_list.go", "expreduce/builtin_pattern.go", "expreduce/builtin_system.go", "expreduce/builtin_replacement.go", "expreduce/builtin_flowcontrol.go", "expreduce/builtin_power.go", "expreduce/matcher/matchq.go", "expreduce/matcher/blank.go", "expreduce/evalstate.go"],
 [("argument checks of each builtin", "expreduce/builtin_*.go"), ("tolerance of malformed patterns", "expreduce/matcher")],
 "runtime monitor: crash and process-death watchdog over random calls of the whole definition table",
 "Held on about 30,000 calls over 235 builtins per quick run. A call that does not end within 6 s of CPU time is undecided, not a violation. Builtins with effects outside the session (Get, Save, ReadList, Pause, LoadRubi) and open-ended iteration are left to other properties.",
 """Oracle: no panic, no process death; result prints in InputForm, OutputForm and FullForm. The function list is read from the interpreter's own
definition table, so new builtins are covered. Arguments come from a pool of well-formed and malformed values. Functions that define things run in
a session of their own on arguments that cannot build a self-referential definition (which the language evaluates for ever by its meaning).""")
