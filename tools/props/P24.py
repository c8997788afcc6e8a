prop("P24", "Sessions and parallel evaluations run side by side without interference",
 "Sessions in different goroutines do not affect each other: each gives what it gives alone. Terms may be read by several goroutines at once: hashing, comparing, ordering, printing, copying, matching, filling in and evaluating a shared term in one session gives what it gives alone, and never changes the term. ParallelTable gives, for every iterator and every body that assigns nothing (no Set, Block, iterator variable, Throw or Sow), the list of the results that the body gives one by one. Definitions of different left sides made at the same time are all kept, as are earlier ones, and names from Module and Unique are distinct. Parsing, parenthesis decisions, rendering, time counters and setting up logging may be used by several goroutines; counters lose nothing. An interrupt ends an evaluation that keeps applying definitions, and the next evaluation is unaffected. None of this has a data race.",
 ["schedules", "inputs"], "all interleavings and all programs, terms, bodies and iterators",
 "A lost definition, a torn cache or a map written twice shows only in some interleavings; the tests run in one goroutine.",
 ["expreduce/atoms/ex_expression.go", "expreduce/atoms/ex_symbol.go", "expreduce/evalstate.go", "expreduce/definition_map.go", "expreduce/builtin_list.go", "expreduce/matcher/matchq.go", "expreduce/logging/caslogger.go"],
 [("Hash, SetNeedsEval", "expreduce/atoms/ex_expression.go"), ("Define, MarkSeen, GetDef", "expreduce/evalstate.go"), ("ParallelTable", "expreduce/builtin_list.go"), ("SetUpLogging", "expreduce/logging/caslogger.go")],
 "runtime monitor: Go race detector over goroutines with random work; results compared with the work done alone",
 "Held on about 8 sessions of 3 goroutines, 7,700 reads of shared terms and 3,000 parallel bodies per quick run, race free; interleavings are those the scheduler gave under 4 processors. Bodies that assign shared symbols, Table and Sum inside included, interfere by design of the shared session and are outside. Interrupts do not end loops of built-in functions.",
 """The check is built with -race; every report is a violation. Goroutines start together on shared random terms with different random sequences of reading operations; each result is compared with that of the
same operation on a private copy. ParallelTable is compared with the body with the iterator's values put in by the monitor's own substitution, evaluated one by one.""")
