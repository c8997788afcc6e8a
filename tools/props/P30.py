prop("P30", "Derivatives, trigonometric rewriting and solutions of equations are right",
 "For all terms: D of sums, products, powers (of numbers, symbols or functions), Log, Exp, Sqrt, Sin, Cos, Tan and Cot and their compositions has the value of the textbook derivative, also repeatedly (D[f, {x, n}] is D applied n times), of a list by elements, zero exactly for what does not contain the variable, and whatever term is the variable. Evaluating trigonometric and inverse trigonometric functions of sums of constants and variables ends and keeps the value; TrigToExp, PowerExpand (for positive bases) and TrigExpand keep it. Solve gives every root of every polynomial equation of degree one to four with rational coefficients, with its multiplicity, however it is spread over the two sides; what it gives for an equation in which the unknown stands once (powers, roots, exponentials, logarithms, trigonometric functions, with their conditions and integer constants) satisfies it, with none missing among the powers; equations with symbolic coefficients, and two linear equations in two unknowns, are solved rightly.",
 ["inputs"], "all terms with elementary functions; all equations of the named forms",
 "Correctness is a matter of every composition of functions and every pattern of coefficients; the tests look at chosen examples, none of which showed the endless evaluation, the lost solutions and the zeros that were found.",
 ["expreduce/resources/calculus.m", "expreduce/resources/solve.m", "expreduce/resources/equationdata.m", "expreduce/resources/trig.m", "expreduce/resources/simplify.m"],
 [("derivative rules", "expreduce/resources/calculus.m"), ("isolation, polynomial equations", "expreduce/resources/solve.m"), ("root formulas", "expreduce/resources/equationdata.m"), ("trigonometric symmetries", "expreduce/resources/trig.m")],
 "runtime monitor: textbook derivatives and roots known by construction as the reference, values compared numerically with running error bounds; a watchdog for evaluations that do not end",
 "Held on about 7,000 calls and 800 solutions per quick run, after repairs (D with respect to {x, n} and of lists, endless Sin of sums, Cot of longer sums, solutions lost to machine arithmetic, equations whose terms cancel or are absent); one form of quartic equation is a recorded finding.",
 """Terms are built from x, y, constants, powers and elementary functions; the harness differentiates the evaluated term itself and compares values at random points of the positive reals, at which both sides must be
well conditioned (error bounds, distance to branch cuts). Polynomial equations are multiplied out from their roots (rational, or pairs with a square root), with terms moved between the sides. Quartic equations with a triple root, or for which the
resolvent lacks its constant, may give Indeterminate (recorded finding). Roots and logarithms in equations are only judged with numbers on the right, because Solve gives no conditions for symbols. Private`ArcCot is not defined. Outside: systems beyond two linear equations, equations of degree
five and more that are no powers, Integrate.""")
