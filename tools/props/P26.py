prop("P26", "List, level and fold functions compute what they are defined to",
 "For every expression with any head: Length, First, Last, Rest, Part (integers, spans, All, heads, any depth), Take, Append, Prepend, Join, Reverse, Sort, Union, Intersection, Complement, DeleteDuplicates, Tally, PadLeft, PadRight, Range, Array, ConstantArray, Flatten (with level), Thread, Total, Mean, Depth, LeafCount, Head, ReplacePart and ListQ; Map, MapIndexed, Apply and Count at every level specification, also by depth; Select, Cases, DeleteCases, MemberQ, FreeQ and AllTrue; Scan, Fold, FoldList, Nest, NestList, NestWhile, NestWhileList, FixedPoint and FixedPointList give exactly the elements their definitions say, in their order and with multiplicity, keep the head, and never change their arguments. AppendTo and PrependTo change one variable and no other.",
 ["inputs"], "all lists and other expressions, all argument forms that are implemented, all chains of these functions",
 "Wrong results need particular shapes: duplicates, empty lists, uneven nesting, level ranges by depth, values shared between variables.",
 ["expreduce/builtin_list.go", "expreduce/builtin_functional.go", "expreduce/builtin_expression.go", "expreduce/resources/list.m", "expreduce/resources/functional.m", "expreduce/iterspec/iterspec.go", "expreduce/atoms/ex_expression.go"],
 [("set functions and Part", "expreduce/builtin_list.go"), ("level specifications and folds", "expreduce/builtin_functional.go, resources/functional.m"), ("Flatten, Depth, LeafCount", "expreduce/builtin_expression.go")],
 "runtime monitor: differential against reference implementations, with aliasing monitor on the arguments",
 "Held on about 60,000 calls and chains per quick run. Argument forms that are not implemented (negative positions, lists of positions, operator forms) are outside.",
 """Oracle: independent implementations on the monitor's own terms (order.go for sorting, refmatch.go for patterns). Elements are drawn from a small pool, so
duplicates and shared subterms are common. Chains take their data from a variable, which is read again after them, and are evaluated twice; histories of AppendTo,
PrependTo, Set and Join on three variables check all three after every step.""")
