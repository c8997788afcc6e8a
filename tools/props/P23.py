prop("P23", "Observers count exactly and never change results",
 "Time counters hold exactly the sum and number of what was added to them, also after merging and resetting; log output appears exactly for the levels that are enabled. Profiling, debug logging and Trace never change the result or the effects of a program, and a trace ends in the program's result.",
 ["inputs", "histories", "configurations"], "all histories of counter and logger operations, all programs under all observer settings",
 "No test looks at the counters or runs one program under different observer settings.",
 ["expreduce/timecounter/timecounter.go", "expreduce/logging/caslogger.go", "expreduce/eval.go", "expreduce/builtin_system.go"],
 [("AddTime, Update, Init", "expreduce/timecounter/timecounter.go"), ("Debugf, Infof, DebugOn, DebugOff", "expreduce/logging/caslogger.go"), ("trace collection", "expreduce/eval.go evalExpression")],
 "runtime monitor: counter and logger models over random histories; differential of programs with observers on and off",
 "Held on about 217,000 counter operations, 29,000 logger calls and 7,600 program lines per quick run. Times are dyadic so that sums are exact.",
 """Oracle: exact model of counters (every table cell read back after each operation); log lines read back from the redirected stream against the
enabled level; for programs, results and final variable values with profiling, debug logging or Trace must equal those without. The number of
evaluation counts under profiling must grow with the events. Trace: the last element is the value (checked for atomic values, since already
evaluated compounds are not listed again).""")
