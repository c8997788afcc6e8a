prop("P05", "Real arithmetic, N and elementary functions are right to rounding",
 "A sum, product or power with a machine real in it comes out as a machine real (or complex of reals) within rounding error of the true value, whichever exact numbers stand beside it; exact arithmetic never becomes inexact by itself. N replaces exact numbers, Pi, E and roots by reals and gives the value of any numeric expression; Sin, Cos, Tan, Cot, ArcTan, Exp, Log, Sqrt, Abs, Re, Im, Conjugate, Arg and Sign of reals give the true values, principal branches throughout. Integers and rationals convert to the nearest machine real. Putting numbers in before or after simplification makes no difference beyond rounding.",
 ["inputs"], "all numeric expressions of moderate size with machine reals, and all exact numeric expressions under N",
 "Values depend on types, signs, branches and magnitudes of all operands together; tests print a handful of six digit results.",
 ["expreduce/atoms/calculator.go", "expreduce/atoms/ex_real.go", "expreduce/atoms/ex_complex.go", "expreduce/builtin_power.go", "expreduce/builtin_arithmetic.go", "expreduce/builtin_system.go", "expreduce/builtin_trig.go", "expreduce/resources/power.m", "expreduce/resources/trig.m", "expreduce/resources/specialsyms.m"],
 [("contagion in ComputeNumericPart", "expreduce/atoms/calculator.go"), ("conversions IntegerToFlt, RationalToFlt", "expreduce/atoms/ex_real.go"), ("N", "expreduce/builtin_system.go exprToN"), ("real and complex powers", "expreduce/builtin_power.go, resources/power.m"), ("elementary functions", "expreduce/builtin_trig.go, resources/trig.m, resources/power.m")],
 "runtime monitor: differential against numeric evaluation with propagated rounding bounds",
 "Held on about 80,000 expressions per quick run. Ill-conditioned expressions (near a branch cut, a pole or total cancellation) are counted and left out; so are exponents 0 and 1 for contagion, and roots of numbers of more than 60 bits (taken by factoring).",
 """Oracle: complex float evaluation of the unevaluated term that carries an error bound through every operation (a function's bound comes from perturbing its
arguments); results must agree within 200 times that bound. Contagion: where a term stays on the real line the result must be a real number, not merely an equal
expression. Conversions are compared with correctly rounded ones from math/big. The folding API has its own real batch under P04.""")
