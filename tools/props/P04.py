prop("P04", "Exact arithmetic is exact",
 "Sums, products, differences, quotients and integer powers of integers, rationals and complex rationals give the mathematically exact result in lowest canonical form, at any size; division by zero gives ComplexInfinity or Indeterminate, never a number. Simplification of sums, products, powers and roots that contain symbols never changes the value of the expression, and equal sums come out identical however they were arranged.",
 ["inputs"], "all arithmetic expressions over exact numbers and symbols",
 "Tests check a few dozen identities with small numbers; exactness is for all operands and all expression shapes, including sizes beyond a machine word and cancellations.",
 ["expreduce/builtin_arithmetic.go", "expreduce/builtin_power.go", "expreduce/atoms/calculator.go", "expreduce/atoms/ex_integer.go", "expreduce/atoms/ex_rational.go", "expreduce/atoms/ex_complex.go", "expreduce/eval.go", "expreduce/resources/arithmetic.m", "expreduce/resources/power.m"],
 [("ComputeNumericPart and the in-place folds", "expreduce/atoms/calculator.go"), ("Plus and Times collection of like terms", "expreduce/builtin_arithmetic.go"), ("Power, radSimp", "expreduce/builtin_power.go"), ("normalisation of rationals and complexes", "expreduce/eval.go evalRational, evalComplex")],
 "runtime monitor: differential against exact Gaussian-rational arithmetic (math/big) and numeric roots",
 "Held on about 82,000 random expressions per quick run. Roots are compared exactly where the result is algebraic of the sampled form and numerically (1e-9 relative) otherwise.",
 """Oracle: an exact Gaussian-rational evaluator in the harness. Workloads: the number folding API called directly (every pairing of atom kinds,
aliasing of operands checked); random arithmetic as operator source and as raw terms; raw non-canonical rationals and complexes; roots
`(p/q)^(m/n)` against exact and numeric values; sums and products with symbols evaluated exactly at random points before and after
simplification, and required to be identical under rearrangement.""")
