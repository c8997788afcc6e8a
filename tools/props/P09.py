prop("P09", "Queries and level specifications select exactly the right parts",
 "Cases, Count, DeleteCases, MemberQ, FreeQ and Switch select exactly the parts that match the pattern, and Select and AllTrue those for which the test gives True, in order and up to the given limit. A level specification n, {n}, {m, n} or Infinity, with negative numbers counting depth from below (atoms have depth 1), makes Count, Map, MapIndexed and Apply act on exactly the parts at these levels, inner ones first, with MapIndexed giving their positions; without one, Map and MapIndexed act on level 1 and Apply on the whole, with any expression as the function. Part with integers, All and spans, First, Last, Rest, Head, Length, Depth and LeafCount describe the structure as it is, and ReplacePart changes exactly the named parts.",
 ["inputs"], "all expressions, patterns and level specifications",
 "Levels, depths and positions interact with the shape of the expression: each wrong bound shows only on particular nestings.",
 ["expreduce/builtin_functional.go", "expreduce/builtin_list.go", "expreduce/builtin_pattern.go", "expreduce/builtin_expression.go"],
 [("levelSpec, expressionWalkMap, expressionWalkMapBackwards, levelSpecFunction", "expreduce/builtin_functional.go"), ("Cases, DeleteCases, Count, Part, Select", "expreduce/builtin_list.go"), ("FreeQ, MemberQ", "expreduce/builtin_pattern.go")],
 "runtime monitor: comparison with the reference matcher and a direct model of levels and parts",
 "Held on about 230,000 queries per quick run. Negative positions, part lists and operator forms are not implemented by the interpreter and left out.",
 """Oracle: the reference matcher of P07 decides which parts match; levels, depths and positions are computed directly on the harness's own terms. Counters report how many
parts were selected at all.""")
