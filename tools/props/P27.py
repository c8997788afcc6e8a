prop("P27", "Number theory and combinatorics give the mathematically right values",
 "For all integers of any size and sign, and rationals where they are taken: PrimeQ; GCD, LCM (never negative, zeros included) of any number of arguments; Mod (with the sign of the modulus); PowerMod (modular inverse for negative powers); EvenQ, OddQ; FactorInteger; EulerPhi; PrimePi, Prime; Fibonacci; IntegerPart, FractionalPart, Sign, Abs, Numerator, Denominator; IntegerDigits and FromDigits in any base; Factorial, Multinomial; IntegerPartitions (also of limited length), Permutations (of multisets, without repetition), Tuples, in their order. Listable ones work element by element, and no call changes the numbers it is given.",
 ["inputs"], "all integers and rationals for which the functions are implemented and finish",
 "Signs, zeros, large values, pseudoprimes and repeated elements behave differently from the positive small numbers in tests.",
 ["expreduce/builtin_numbertheory.go", "expreduce/builtin_combinatorics.go", "expreduce/resources/numbertheory.m", "expreduce/resources/combinatorics.m", "expreduce/resources/power.m"],
 [("GCD, Mod, PowerMod, Prime, PrimePi", "expreduce/builtin_numbertheory.go"), ("partitions, permutations, factorials", "expreduce/builtin_combinatorics.go"), ("LCM, FactorInteger, EulerPhi, digits", "expreduce/resources/numbertheory.m")],
 "runtime monitor: differential against math/big, trial division and enumeration",
 "Held on about 60,000 calls per quick run, apart from the recorded finding PrimePi[1]. FactorInteger and EulerPhi stay small (they count upwards), partitions up to 11, tuples up to 27.",
 """Oracle: math/big (GCD over common denominators, ModInverse, Exp, ProbablyPrime with 30 rounds), trial division for small numbers, enumeration in the documented
order for the combinatorial functions. Inputs include zero, negative moduli, strong pseudoprimes to small bases and multisets. In a quarter of the calls the
arguments are variables whose values are compared afterwards.""")
