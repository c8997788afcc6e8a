prop("P35", "TeX output stands for the expression it shows",
 "The TeX of an expression (TeXForm[e], ToString[e, TeXForm], and the interpreter's API) is well formed (balanced groups, no double superscripts, known commands only) and, read as a mathematician reads it (powers bind tighter than products, products tighter than sums, a minus after a factor is a difference, what is under a root or fraction bar belongs together, juxtaposition is a product), denotes the expression: sums, products, powers, quotients, roots, negative, rational, complex, infinite and real numbers (also with exponents of ten), subscripts, Greek letters and longer names, elementary functions, other functions, lists, rules, equations and conditions.",
 ["inputs"], "all expressions of these forms",
 "The tests show the TeX of a handful of expressions; whether parentheses are needed depends on what stands around a term.",
 ["expreduce/string.go", "expreduce/ex_expression.go", "expreduce/atoms", "expreduce/parser/parens", "expreduce/resources/string.m"],
 [("infix forms and TeX", "expreduce/string.go"), ("parentheses", "expreduce/parser/parens/parens.go"), ("numbers in TeX", "expreduce/atoms/ex_real.go")],
 "runtime monitor: an independent reader of TeX mathematics as oracle; the term read is evaluated and compared with the value of the expression, as a term, or by its values at random points",
 "Held on 23,700 texts per quick run, after two repairs (negative factors after the first, real numbers with exponents). Outside: expressions with reals that need more than six digits; Abs, Floor and other builtins that have no TeX of their own are read as \\text{Name}[...]; conditionals.",
 """Terms are shown both evaluated and as they stand. Where evaluation of what was read gives a term of another form (products of powers of numbers are combined in more than one way) the values at five random points decide, with the error of the machine arithmetic carried along; terms with reals, infinities or such powers that are not decided by either are counted as undecided (1 in 200).""")
