prop("P31", "Comparisons, logic and extremes agree with the values compared",
 "Less, LessEqual, Greater, GreaterEqual and Equal, alone and in chains of any mix, decide numbers of any type by value: exact numbers without rounding at any size, and after conversion to reals when a real is involved; complex numbers have no order. Equal and Unequal are symmetric and opposite, identical sides are equal, and a comparison with symbols is only decided when its truth does not depend on their values. SameQ and UnsameQ compare structure. Max, Min and MinMax give the extreme of all numbers in nested lists and keep the rest. And, Or, Not and Boole keep the truth value for every assignment of their symbols and drop constants. Sign, Positive, Negative, NumberQ, NumericQ, BooleanQ and PossibleZeroQ agree with the value.",
 ["inputs"], "all numbers of all types, chains of comparisons, terms with symbols and logic expressions",
 "Numbers that differ by less than a rounding error, mixed types in either order, and chains that are partly decided cannot be listed in examples.",
 ["expreduce/builtin_comparison.go", "expreduce/builtin_boolean.go", "expreduce/atoms/ex_integer.go", "expreduce/atoms/ex_rational.go", "expreduce/atoms/ex_real.go", "expreduce/atoms/ex_complex.go", "expreduce/atoms/ex_symbol.go", "expreduce/atoms/ex_string.go", "expreduce/atoms/ex_expression.go", "expreduce/atoms/sameq.go", "expreduce/resources/comparison.m", "expreduce/resources/boolean.m"],
 [("IsEqual of all atoms, IsSameQ", "expreduce/atoms"), ("comparisonFn, Inequality, extremaFunction", "expreduce/builtin_comparison.go"), ("And, Or, Not", "expreduce/builtin_boolean.go"), ("Sign, Positive, Negative, Boole", "expreduce/resources")],
 "runtime monitor: differential against exact rational comparison, truth tables and substitution",
 "Held on about 100,000 cases per quick run. Two reals that differ by less than 1e-12 relatively are not judged (Equal compares 14 digits).",
 """Oracles: exact rationals (near misses down to 2^-90 are generated on purpose); truth at random values of the symbols for chains and logic, compared with the
truth of what is left of them; the opposite operator and the swapped sides. IsEqual and IsSameQ of atoms and terms are called directly, both ways round.""")
