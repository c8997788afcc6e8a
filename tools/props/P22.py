prop("P22", "What is written to a stream arrives there: all of it, once, in order",
 "Every write to a known stream, named with or without its number, puts exactly the given text on that stream once, in program order, and on no other stream; a write to an unknown stream, a wrong number or a failing stream writes nothing anywhere and reports failure. Print and WriteString in any program write exactly what their evaluation order says, and the list of streams names exactly the open ones.",
 ["inputs", "histories", "fault_sequences"], "all histories of writes over known and unknown streams, including streams that fail",
 "Tests never observe the file descriptors; loss, duplication and misrouting depend on the combination of name, number and earlier writes.",
 ["expreduce/streammanager/streammanager.go", "expreduce/builtin_system.go"],
 [("WriteString, fillMissingIndex, AsExpr", "expreduce/streammanager/streammanager.go"), ("Print, WriteString, OutputStream parsing", "expreduce/builtin_system.go parseOutputStream")],
 "runtime monitor: byte-exact model of each stream over random write histories (stdout and stderr redirected to scratch files)",
 "Held on about 18,000 writes per quick run.",
 """Oracle: a model that appends text to named streams; after every operation the bytes of both files since the last one are compared. Workload:
manager API with every pairing of known and unknown names and numbers, all kinds of text, a stream whose file is closed; session programs of Print
and WriteString under loops, conditionals and functions, against the specified event order.""")
