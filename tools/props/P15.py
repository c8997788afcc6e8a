prop("P15", "Source text parses to the tree its precedences and brackets say",
 "For every text made of the supported operators, the parse is the tree determined by one table of precedences and associativities: operators of higher precedence bind first, those of equal precedence associate as the table says, flat operators written in a row form one expression, chains of the same comparison form one comparison and mixed ones an Inequality, and subtraction, division, unary minus, //, @, @@@, ', ++ and -- stand for their usual expressions. Explicit parentheses and brackets always override and leave no trace, also not through flat operators or comparisons. White space, line ends inside brackets, and nested comments between tokens make no difference. Numbers, strings with escapes, named characters, patterns with heads, slots and % denote what they say.",
 ["inputs"], "all texts over the supported operators, to any nesting depth",
 "The number of combinations of operators is cubic already for three in a row; a wrong case number or precedence for one operator shows only next to particular others.",
 ["expreduce/parser/interp.go", "expreduce/parser/reader.go"],
 [("parserExprConv, fullyAssoc, convertToInequality, removeParens, parsePattern, parserTokenConv", "expreduce/parser/interp.go"), ("terminatedReader", "expreduce/parser/reader.go")],
 "runtime monitor: comparison of every parse with the tree the text was generated from",
 "Held on about 120,000 texts per quick run, including about a third of all sequences of three operators. The grammar comes from a dependency; its deviations from the documented language are known findings.",
 """Trees are generated top down together with their text: parentheses are put only where the independent table requires them (plus some superfluous ones), so a parse that binds
differently gives another tree. Each text is written in three spacings (as tight as possible, one space, random white space, line ends and comments).""")
