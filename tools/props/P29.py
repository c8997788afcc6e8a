prop("P29", "Polynomial functions give equal polynomials in the form they promise",
 "For all polynomials and rational functions over the rationals, in any number of variables (any term that is no sum, product or power can be one): Expand, ExpandAll, Factor, FactorTerms, FactorSquareFree, Together, Apart, Distribute, Simplify and ComplexExpand give something equal. Like terms of a sum are added, powers of one base in a product multiplied, wherever they stand. Expand gives a sum of different monomials, the same for equal polynomials; Together one fraction of two polynomials; the factors of FactorSquareFree are square-free; FactorTermsList takes out the content. Numerator over Denominator is the term. PolynomialQ, Exponent, Coefficient, CoefficientList and Variables tell what the expanded polynomial has. PolynomialQuotient and PolynomialRemainder satisfy the division identity with a remainder of lower degree, of any length. PolynomialGCD is, up to a constant, the greatest common divisor in one variable; SquareFreeQ agrees with it.",
 ["inputs"], "all polynomials and quotients of them with rational coefficients",
 "The identities hold for all polynomials; the tests try few, small, with coefficient 1 and short quotients.",
 ["expreduce/builtin_arithmetic.go", "expreduce/resources/power.m", "expreduce/resources/manip.m", "expreduce/resources/arithmetic.m", "expreduce/builtin_power.go"],
 [("collectTerms", "expreduce/builtin_arithmetic.go"), ("Expand, Coefficient, division, GCD", "expreduce/resources/power.m"), ("Together, Numerator", "expreduce/resources/manip.m")],
 "runtime monitor: exact polynomial arithmetic over the rationals as the reference, checked on every call",
 "Held on about 13,000 calls per quick run, after repairs (constant factors lost by FactorSquareFree, quotients cut after 19 terms, CoefficientList of zero, numerators and common denominators of negative powers, like terms that stand apart).",
 """The reference represents polynomials as maps from exponents to rationals, and rational functions as pairs compared by cross-multiplication. Random terms of sums, products and
powers, and polynomials built from wanted factors, are given to every function; results are read back into the reference and compared exactly, and their form is checked syntactically. A
variable is replaced by other kernels in a quarter of the calls. Outside: real and complex coefficients (P05 covers real arithmetic), GCDs in several variables, algebraic numbers;
0^0 inside the input.""")
