prop("P21", "Names stand for one symbol: contexts, packages and printed names agree",
 "For every sequence of Begin, End, BeginPackage, EndPackage (nested in any order, unmatched ends included) and settings of $Context and $ContextPath: a name without context stands for the symbol of the first context on the path that has one of that name, otherwise for one of the current context (noted as seen when read, left to right); a name that starts with a backtick is of the current context; a full name is itself. Ends restore what was there at the begin. A symbol prints with its short name exactly if that reads back as the symbol, in all forms. Values, functions and their helpers belong to the full name: those of other contexts never matter, definitions keep their meaning in every context, and what an expression gives does not depend on the context. Names lists what was seen. The same holds of the parser and the symbol printer used directly.",
 ["inputs", "histories"], "all sequences of context operations, definitions and names",
 "A name's meaning depends on everything read before; packages nest and shadow each other; the tests try one package.",
 ["expreduce/parser/interp.go", "expreduce/atoms/ex_symbol.go", "expreduce/evalstate.go", "expreduce/resources/system.m", "expreduce/builtin_system.go"],
 [("name resolution", "expreduce/parser/interp.go"), ("printing of symbols", "expreduce/atoms/ex_symbol.go"), ("packages", "expreduce/resources/system.m")],
 "runtime monitor: reference model of contexts stepped along with the session",
 "Held on about 3,600 direct texts, 2,000 session texts and 10^5 printed symbols per quick run, after a repair (nested packages wrecked the session, shadowed symbols printed as others, unmatched ends unset the context).",
 """A reference name space (symbols seen, current context, path) is stepped along with random operations. Expressions with holes for names are read in a neutral state, and the holes
filled by the model, which gives the expected reading. After every step all symbols seen are evaluated, called and printed. The model itself implements the interfaces that the parser and
printer ask of a session, and is used to drive them directly. About 120 builtin calls are evaluated under the contexts reached and compared to a fresh session.""")
