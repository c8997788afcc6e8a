prop("P10", "Definitions apply as made: the most specific first, and nothing else changes",
 "After any history of definitions, redefinitions, Clear and ClearAll, a call f[...] uses a definition that applies to it, and stays as it is where none applies. Definitions without patterns are tried first; conditional right sides before unconditional ones; a constant before a blank in the same place, a typed or tested blank or a structure before a plain blank, whatever the names; equally specific ones in the order entered. Giving the same left side again replaces its right side in place. Set stores the value the right side has now, SetDelayed the right side; arguments of the left side are evaluated unless held. Increment and its kin, AppendTo, PrependTo and assignments to lists and elements store and return what they say. DownValues has one rule per definition, and assigning it defines the same function. The store called directly obeys the same model; snapshots never change; a frozen session stores nothing. No definition of another symbol changes.",
 ["inputs", "histories"], "all histories of definitions and calls",
 "The order of definitions depends on the whole history; the tests define a handful.",
 ["expreduce/evalstate.go", "expreduce/definition_map.go", "expreduce/builtin_system.go", "expreduce/resources/system.m", "expreduce/resources/arithmetic.m"],
 [("Define, ruleSpecificity, GetDef, Clear, GetDefinedSnapshot", "expreduce/evalstate.go"), ("Set, SetDelayed, DownValues", "expreduce/builtin_system.go"), ("CopyDefs", "expreduce/definition_map.go")],
 "runtime monitor: model of the definition store compared after every step of random histories",
 "Held on about 14,000 definitions, 85,000 calls and 8,000 assignments per quick run. Where two definitions apply and neither is more specific by the statement, either is accepted. Sequence patterns, repeated names and Flat heads are outside the model's order. Values of held expressions that were evaluated before a redefinition are P06.",
 """A model keeps the definitions as terms of its own with a partial order of specificity and gives the set of right answers of each call; calls are made after every definition. Variables, elements and lists
are kept in a map. The store's Go interface (Define, GetDef, GetSymDef, IsDef, MarkSeen, Clear, GetStringDef, GetListDef, SetFrozen, GetDefinedSnapshot) is driven by random calls against the same kind of model, and snapshots
are re-read after every later step. All other symbols' rules and attributes are compared before and after.""")
