prop("P37", "Random numbers are in range, fresh, and follow from the seed alone",
 "RandomReal[] is a real number between 0 and 1, RandomReal[max] between 0 and max, and RandomReal[{min, max}] between min and max, for integer, rational and real limits of any sign and order. Every evaluation of a call draws a new number: in loops, tables, functions, definitions and replacements. The numbers are spread evenly, and neighbours are independent. SeedRandom[n] decides all that follows: the same seed gives the same numbers, one by one or together and in whatever form they are drawn, and other seeds give others, no matter what other sessions draw or seed in between and what else is evaluated.",
 ["histories", "inputs"], "all seeds, limits, forms and histories of several sessions",
 "The tests only show examples of random numbers.",
 ["expreduce/builtin_random.go", "expreduce/resources/random.m", "expreduce/evalstate.go"],
 [("random numbers", "expreduce/builtin_random.go"), ("ranges", "expreduce/resources/random.m")],
 "runtime monitor: histories of seeds and draws in two sessions, compared draw by draw; a check of range and freshness for each number; Kolmogorov-Smirnov statistics of samples",
 "Held on 1,200 histories with 40,000 draws per quick run, after one repair (sessions shared one generator, so that another session's draws or start changed what a seed gives).",
 """The threshold of the statistics is one that independent uniform numbers exceed once in 10^12 samples, so that any good generator passes.""")
