prop("P28", "String functions work on whole characters and lose nothing",
 "For all strings (any Unicode text, empty, with quotes, backslashes, newlines, brackets or comment marks; given directly, held by variables or computed): StringLength counts characters; StringTake[s, {m, n}] gives the characters m to n and stays unevaluated outside the string; StringJoin concatenates its arguments, nested calls and lists included, and leaves calls with other arguments as they are; StringReplace replaces all occurrences from left to right; ExportString gives the base64 text, $Failed for unknown formats; ToString of a string is its text, in InputForm and FullForm a literal that reads back as the string; Infix texts join with the separator. String atoms are equal, have equal hashes and match exactly when their texts are equal; copies are independent; strings have no parts and equal no number or symbol.",
 ["inputs"], "all strings and calls of the implemented string functions",
 "Characters of several bytes, escapes, long and repeated texts and overlapping occurrences behave differently from the short ASCII strings in tests.",
 ["expreduce/builtin_string.go", "expreduce/atoms/ex_string.go", "expreduce/parser/reader.go", "expreduce/resources/string.m"],
 [("string atoms: text, equality, hash, copies", "expreduce/atoms/ex_string.go"), ("string functions", "expreduce/builtin_string.go"), ("string literals and escapes", "expreduce/parser/reader.go")],
 "runtime monitor: differential against Go references over runes and bytes",
 "Held on about 30,000 calls per quick run, after three repairs (characters instead of bytes, escaped backslashes).",
 """Direct monitor of atoms.String (value, equality, hash, copies, text in five forms, arbitrary bytes included) and of calls through the evaluator whose string
arguments are literals, variables (checked for change afterwards) or computed; references written over runes. Literals are read back by the parser.
Outside: StringReplace of the empty string, StringTake with an end more than one before its start.""")
