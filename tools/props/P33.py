prop("P33", "Simplification keeps the value and the truth of what it is given",
 "For all formulas built from And, Or, Not, True and False over any statements (symbols, calls, comparisons), Simplify and FullSimplify give a formula over the same statements that has the same truth value under every assignment. For all terms with sums, products, powers, roots, complex numbers, exponentials, logarithms and trigonometric functions, Simplify, FullSimplify, ComplexExpand, PSimplify, Together and ExpandAll give a term with the same value wherever the variables are positive reals. Simplify gives the same within lists and arguments of other functions as alone. All of them end.",
 ["inputs"], "all formulas and terms; formulas are compared over all assignments",
 "A rewriting rule is right or wrong for every formula and term it happens to match; the tests show one formula per rule.",
 ["expreduce/resources/simplify.m", "expreduce/resources/power.m", "expreduce/resources/trig.m", "expreduce/resources/manip.m", "expreduce/resources/boolean.m"],
 [("rules for And, Or, Not", "expreduce/resources/simplify.m"), ("ComplexExpand, PSimplify", "expreduce/resources/power.m"), ("Together, factoring", "expreduce/resources/manip.m")],
 "runtime monitor: exhaustive truth tables for formulas; numerical comparison with running error bounds at random points for terms; a watchdog for simplifications that do not end",
 "Held on about 1,400 distinct calls and 10,000 assignments per quick run, after a repair (PSimplify of fractions that are no polynomials).",
 """Formulas have up to five statements of mixed kinds, nested up to three levels, with repeated and negated statements. Terms mix the elementary functions of P30 with complex factors and the forms that particular
rules of Simplify look for. A difference counts only where both sides are well conditioned and away from branch cuts.""")
