prop("P12", "Scoping constructs, pure functions and iterators touch only their own names",
 "Module gives its names fresh identities, initialised from the outside; With replaces free occurrences by evaluated values; pure functions (named or by slots) and definitions replace parameters by arguments, without capturing or being captured by names that inner scoping constructs introduce, closures keep the locals they were made with; Block and the iterators of Do, Table, Sum and Product give symbols temporary values or definitions that everything evaluated inside sees. On leaving any of these, normally or by Throw, Return or Break at any depth, the value, definitions and attributes of every outer symbol are what they were, save for what was explicitly assigned to names the construct does not scope, and the session is not left in a throw. Results are compared up to the numbers in generated local names.",
 ["inputs", "histories"], "all nestings of scoping constructs and exits",
 "Captures and lost restorations need particular nestings of names, writes and exits.",
 ["expreduce/atoms/scoping.go", "expreduce/builtin_system.go", "expreduce/builtin_function.go", "expreduce/iterspec/iterspec.go", "expreduce/evalstate.go", "expreduce/atoms/replacement.go"],
 [("scoping substitution", "expreduce/atoms/scoping.go"), ("TakeVarSnapshot, RestoreVarSnapshot, DefineCurrent", "expreduce/iterspec/iterspec.go"), ("Module, With, Block", "expreduce/builtin_system.go")],
 "runtime monitor: reference interpreter with hygienic substitution, run beside random histories; snapshots of all definitions around random nestings of scopes, writes and exits",
 "Held on 45,000 programs of histories and 45,000 restored scopes per quick run. A parameter of a definition that is also the name of an inner local, With over the name of an inner Block, and an outer iterator of a multiple iteration that the body assigns are outside of the domain.",
 """A second interpreter (refint.go) of the sublanguage runs beside the real one: histories define functions, then evaluate random nestings of Module, With, Block, Function, closures, loops, exits and assignments, with logged side effects; values, the log and all variables
are compared after each input, up to renaming of locals. A failing history is reduced before it is reported. Separately, scopes around bodies that redefine, clear, loop and leave in random ways are checked against snapshots of all definitions.""")
