prop("P03", "The canonical order is a total order, and sorting follows it",
 "The canonical order of terms is a total order: for any two terms exactly one of before, same, after holds, it is transitive, numbers are ordered by exact value, and only equal terms rank the same. Sort, Union, Complement, Intersection and the arguments of Orderless functions come out in that order and as the same multiset, whatever order they were given in.",
 ["inputs"], "all terms, all multisets of terms and all arrangements of them",
 "Transitivity and totality quantify over all triples; tests sort a few fixed lists. Violations need near-ties: numbers of different kinds that agree to machine precision, or terms that differ in one deep place.",
 ["expreduce/atoms/order.go", "expreduce/builtin_sort.go", "expreduce/builtin_list.go", "expreduce/eval.go"],
 [("ExOrder and its helpers", "expreduce/atoms/order.go"), ("sort of Orderless arguments", "expreduce/eval.go evalExpression"), ("Sort, Union, Complement, Intersection", "expreduce/builtin_sort.go, expreduce/builtin_list.go")],
 "runtime monitor: total-order laws and a reference comparison over random triples; permutation invariance of sorting",
 "Held on about 900,000 triples and arrangements per quick run. The reference order is written from the observed specification (numbers by value first, then as documented in order.go) and only used where the code documents the outcome.",
 """Oracle: antisymmetry, transitivity and totality on triples (near ties, mutants, numbers closer than a double resolves), plus a reference
comparison in the harness (`order.go`) and multiset equality. Sorting workloads run every builtin that sorts, and user-declared Orderless
functions, on all or random arrangements and require one identical, ordered result.""")
