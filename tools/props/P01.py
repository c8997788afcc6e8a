prop("P01", "Equal terms have equal hashes; different terms are different",
 "Two terms are identical (SameQ, equal hash) exactly when they have the same structure: the same kind of atom with the same exact value, or the same head and the same arguments in the same order. Copies of a term are identical to it and independent of it, and however a term came about (parsed, built, edited, sorted, evaluated), its hash is the one its present structure has.",
 ["inputs", "histories"], "all terms, and all histories of building, copying, editing and evaluating them",
 "Tests compare a few fixed pairs; identity must hold for every term, and a stale cached hash needs a particular history of edits and evaluations to show.",
 ["expreduce/atoms/ex_expression.go", "expreduce/atoms/ex_symbol.go", "expreduce/atoms/ex_integer.go", "expreduce/atoms/ex_rational.go", "expreduce/atoms/ex_real.go", "expreduce/atoms/ex_complex.go", "expreduce/atoms/ex_string.go", "expreduce/atoms/sameq.go"],
 [("IsSameQ and the IsEqual methods", "expreduce/atoms/sameq.go"), ("Hash with its cache, ClearHashes", "expreduce/atoms/ex_expression.go"), ("DeepCopy, Copy, ShallowCopy", "expreduce/atoms/ex_*.go")],
 "runtime monitor: structural identity model over term API histories; re-hash invariant",
 "Held on about 190,000 term histories and 480,000 pairs of different terms per quick run. Assumes that 64-bit hashes of the sampled different terms do not collide by chance.",
 """Oracle: structural identity of the harness' own snapshots. Workloads: (api) random terms and one-place mutants built through the
constructors, copied (DeepCopy, Copy, ShallowCopy), edited in place through the API, hashed in every order; (swap) Swap/sort on expressions with
cached hashes; (ulp) reals one bit apart; (session) SameQ/UnsameQ on held and evaluated terms; (rehash) after every statement of a random
program, every term reachable from the result and from user definitions is re-hashed from its structure and compared with the hash it reports.""")
