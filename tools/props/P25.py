prop("P25", "Graphics are rendered as they are written, in scope",
 "Rendering Graphics[primitives] gives one curve per Line in the order written, with exactly the coordinates of its points as double precision numbers. Colour, opacity and thickness set by a Directive hold for the primitives after it in the same list and in lists nested there, and never for those before it or outside its list. Unknown primitives and directives are skipped. Malformed points, lines, directives and expressions that are not Graphics give an error, never a picture or a panic, and the expression is not changed. ExportString as PNG gives a valid image of the stated size in which every line has its colour, and $Failed where rendering fails; Base64 text decodes to the bytes encoded. Plot gives for every function one line whose points run over the range in even steps and lie on the function, in distinct colours for up to three functions.",
 ["inputs"], "all nestings of primitives and directives, all functions and ranges",
 "Scoping shows only for particular nestings and orders; the existing tests render one graphics.",
 ["expreduce/graphics/graphics.go", "expreduce/builtin_string.go", "expreduce/resources/plot.m"],
 [("renderPrimitive, setDirective, renderLine, Render", "expreduce/graphics/graphics.go"), ("ExportString", "expreduce/builtin_string.go")],
 "runtime monitor: model of the scoping rules compared with every rendered series; decoded images",
 "Held on about 50,000 graphics per quick run. The opacity after a colour directive that follows an opacity directive is not specified. How the dependency draws is seen only through the colours in the image.",
 """A model walks the independent term of the graphics with a copied style per list and predicts series or error; Render is called directly and every coordinate, colour component, opacity and
thickness compared. PNG exports of lines that cross the whole picture are decoded and the pixels of each line's colour counted. Plots are checked point by point against Go functions.""")
