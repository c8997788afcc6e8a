prop("P36", "Plot draws the function over its range, whatever is defined outside",
 "Plot[f, {x, min, max}] and Plot[{f1, f2, ...}, {x, min, max}] give a graphic with one coloured curve per function. The points of a curve are pairs of real numbers (x, f(x)) at 500 equal steps from min (to max), in this order; only points where the function is not real are left out. PlotRange is the range of the variable and of the values drawn. This is so for exact, rational and real limits in both directions, functions written out, in a variable or as functions of the user with conditions on numbers, and whatever value the variable has outside, which it keeps; rendering the graphic draws exactly these curves.",
 ["inputs", "histories"], "all functions of elementary functions, ranges, variables and definitions",
 "The one test of Plot asks for the head of the result.",
 ["expreduce/resources/plot.m", "expreduce/graphics", "expreduce/builtin_trig.go", "expreduce/iterspec"],
 [("Plot", "expreduce/resources/plot.m"), ("rendering", "expreduce/graphics/graphics.go"), ("iteration", "expreduce/iterspec/iterspec.go")],
 "runtime monitor: every point is compared with an independent evaluation of the function with error bounds, every missing point must be outside of the reals there, and the rendered chart is compared with the points",
 "Held on 630 plots with 530,000 points per quick run, after four repairs (the variable kept its outer value, exact limits, the third and later colours, exact values as coordinates). Outside: the last point, which rounding of the steps may leave out; functions that are not elementary; ranges of no width.",
 """A missing point is an alarm only if every part of the function is real at the grid point and on both sides of it. Points at which the error bound of the independent evaluation is not finite are counted as unjudged (1 in 100).""")
