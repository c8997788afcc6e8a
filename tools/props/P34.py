prop("P34", "Documented examples hold in every session, whatever came before",
 "Every example in the documentation of a builtin (2,400 inputs, or sequences of inputs, with the results or the printed text they are documented to have, in expreduce/resources/*.m and in the Go definitions) gives its documented result: in the order they are written, in a session in which any other examples were evaluated before it or between its inputs, with any names for its variables that keep their order, when the input is printed in InputForm or FullForm and read back, when it is evaluated inside If, Which, Module or a sequence of statements, and with tracing or profiling on.",
 ["inputs", "histories"], "all documented examples, all orders and interleavings of them, all renamings, all contexts of evaluation",
 "The tests of the builtins run each example once, in one order, with one set of names; state left behind (cached values, attributes, order of names, counters) shows only in other histories.",
 ["expreduce/builtin.go", "expreduce/testing.go", "expreduce/evalstate.go", "expreduce/eval.go", "expreduce/resources.go"],
 [("documented examples", "expreduce/builtin.go"), ("how they are judged", "expreduce/testing.go"), ("evaluation", "expreduce/eval.go")],
 "runtime monitor: the documented results as oracle over shuffled, interleaved, renamed, reread and observed sessions",
 "Held on 9,300 runs of 2,400 examples per quick run (four passes, every example in each of the four ways), after a repair (one of the repairs for P16 had changed how inequations print). Outside: Integrate and Rubi (the generated snapshot is missing from the repository), examples marked as known failures. Reread: not examples with reals, Optional, Infix or Part of nothing, which do not print as themselves.",
 """The examples were extracted from the tree once, as terms, and are part of the harness, so that a change of the tree cannot change what is expected. A session takes an eighth of the builtins in random order;
the examples of a builtin run in their order, alone or interleaved with those of the next builtin, each in a context of its own. Results are compared as terms, reals to five digits, as the documentation shows them; texts exactly.""")
