prop("P20", "Saved definitions and files read back as what they were",
 "For all definitions (values, rules with any patterns and numbers, attributes, defaults): Save of any set of symbols and Get in another session replaces exactly those symbols by what they were, in the same order, so that later definitions and inputs behave alike; values are evaluated with the definitions present; nothing else changes, nor does saving change anything. Every expression survives encoding and decoding, with its hash. Damaged or cut files, at any byte, and files that cannot be read or written give $Failed and change nothing. Get of a text evaluates its statements in order and gives the last result, ReadList gives all of them; files are found on $Path.",
 ["inputs", "faults"], "all user definitions and expressions; all truncations, bit flips and insertions in saved files",
 "Saved files hold encoded internals; every kind of number, pattern and attribute, and every damaged byte, is a case of its own; the tests save nothing.",
 ["expreduce/builtin_system.go", "expreduce/easyrun.go", "expreduce/atoms/gob.go", "expreduce/evalstate.go"],
 [("Save, Get, ReadList", "expreduce/builtin_system.go"), ("encoding of atoms", "expreduce/atoms/gob.go"), ("statements of a file", "expreduce/easyrun.go")],
 "runtime monitor: snapshots of definitions before saving and after reading, with fault injection into files",
 "Held on about 400 saves, 2,400 encodings, 480 damaged files and 140 text files per quick run, after a repair (damaged files crashed the process, failed writes went unnoticed, values stayed as evaluated elsewhere).",
 """Definitions are generated and used in one session; a random subset is saved and read in a session with other definitions. Snapshots of all rules and attributes of saved,
unsaved and other symbols are compared, then the same new definition is made in both and queries compared. Faults: truncation at any byte, bit flips and inserted bytes,
missing directories, directories as files. All files are in the scratch directory of the run. Outside: Save of builtin symbols.""")
