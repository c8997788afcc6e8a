prop("P19", "Sessions and scripts evaluate every input once, in order, and remember them",
 "For all sessions: each line is evaluated once, in order; Out[n] (and %, %%) is the result of line n, Null and uncaught throws (Hold[Throw[..]]) included, whatever $PrePrint shows; In[n] evaluates input n again with the present values; $Line counts the lines; entries that do not exist stay unevaluated; a syntax error or an uncaught Throw spoils only its own line. The command reads every line of its input, skips empty ones, numbers prompts and results alike, prints results (not Null) in InputForm or under the FullForm and OutputForm labels. Scripts and init files evaluate each statement once, in order, over line breaks and comments.",
 ["inputs", "histories"], "all sessions, in process, through the command's standard input, and scripts",
 "What %, Out and In mean depends on everything entered before; the tests never run a session.",
 ["expreduce/evalstate.go", "expreduce/easyrun.go", "expreduce.go", "expreduce/parser/interp.go"],
 [("top-level results, In, Out, $Line", "expreduce/evalstate.go"), ("the command", "expreduce.go"), ("scripts statement by statement", "expreduce/easyrun.go")],
 "runtime monitor: differential against a session without history in which references are replaced by what they mean",
 "Held on about 3,900 lines per quick run, after a repair (-rawterm lost the lines that were buffered with the first).",
 """Random lines refer to earlier inputs and results (%, %%, Out[n], In[n], nested). A second session gets the same lines with each reference replaced by the recorded result
or the earlier input as it reads at this line; results, $Line, all Out entries and the variables must agree, with and without $PrePrint. The same lines go
through the built command (-rawterm), whose transcript is compared in full, and scripts over several lines with comments through -script and -initfile.
Outside: % after a line that ends in a semicolon (Null is recorded), In of the present line, conditions as inputs.""")
