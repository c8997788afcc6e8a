prop("P14", "Iteration runs over exactly the specified values and restores its variables",
 "An iterator {i, n}, {i, m, n}, {i, m, n, d} or {i, list} takes exactly the values m, m+d, ... up to and including n (down to n for a negative step), or the elements of the list, in order; several iterators run through all combinations with the last one varying fastest, and an empty one makes the whole iteration empty. Do, Table, ParallelTable, Sum and Product evaluate the body once for each combination, in that order, with the variables having these values; Range gives the values themselves. Bounds are evaluated once, the variable is not. Malformed iterators leave the call unevaluated. Afterwards, also after a Throw out of the body, all definitions of the variables are what they were before.",
 ["inputs"], "all iterators with exact or exactly representable real bounds, alone and combined, and all bodies",
 "Off-by-one errors, mixed number types, negative steps, empty iterators inside others, and restoring the variables after an exit are combinations that examples do not enumerate.",
 ["expreduce/iterspec/iterspec.go", "expreduce/builtin_list.go", "expreduce/builtin_flowcontrol.go", "expreduce/builtin_arithmetic.go"],
 [("SpecFromList, MultiSpecFromLists, Next, Cont, DefineCurrent, RestoreVarSnapshot", "expreduce/iterspec/iterspec.go"), ("Table, ParallelTable, Range", "expreduce/builtin_list.go"), ("Do", "expreduce/builtin_flowcontrol.go"), ("Sum, Product", "expreduce/builtin_arithmetic.go")],
 "runtime monitor: comparison with an exact model of iterators; events recorded by the body; definition snapshots",
 "Held on about 55,000 iterators per quick run. Real steps that are rounded when added, and bounds that depend on other iterators (not supported), are left out.",
 """Oracle: exact rational enumeration and an odometer. The iterspec API is driven directly (values, bindings, definitions in each combination), then through the
language: the body appends what it sees to a log, which must be exactly the list of combinations (or its prefix up to a Throw). All definitions of Global` symbols are
compared before and after.""")
