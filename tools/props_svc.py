prop("S05", "Interactive sessions keep and reset the machine's state as documented",
 "For every interactive session, lines are executed one after the other on a machine that keeps variables, the error handler, DATA and its position, the angle mode and the console's settings between lines, including after errors and breaks. A line that does not compile has no effects. CLEAR, NEW, LOAD and RUN put all of that back to the initial state, RUN executes the stored program leaving its variables behind but not its error handler, and END within it returns to the prompt. Every error is reported once, with its position, and the session continues.",
 ["histories", "inputs"], "All sequences of lines of statements, stored programs and startup programs made of a set of 40 statements, in interactive and piped consoles, with breaks during execution and prompts.",
 "Tests check one command after a fixed preparation; what remains after each mix of failures, breaks, loads and runs depends on the whole history.",
 ["std/src/lib.rs", "std/src/exec.rs", "repl/src/lib.rs", "std/src/program.rs", "std/src/data.rs", "std/src/numerics.rs"],
 [("execution loop and deferred actions", "std/src/lib.rs: Machine::exec"), ("reset", "std/src/lib.rs: Machine::clear"), ("REPL", "repl/src/lib.rs: run_repl_loop"), ("startup program", "repl/src/lib.rs: try_load_autoexec")],
 "stateful model-based testing: random sessions typed into the REPL vs. a model of the machine's state", STDMODEL, ["printed lines in order", "exit code", "console colors and sync state"])

prop("S06", "Storage paths reach exactly the files of the drives that they name",
 "For every sequence of MOUNT, UNMOUNT, CD, COPY, KILL, DIR, PWD and storage operations, the mounted drives, the current location and the contents of all files are those of a model in which drive names are case-insensitive and paths name one file of one drive. Invalid names and paths are rejected with the documented errors and no effects, not even on the target of a MOUNT that fails. Drives only ever get plain file names, so no path escapes from a drive, and the canonical form of a path refers to the same file from any location.",
 ["histories", "inputs"], "All sequences of operations over paths, drive names and URIs of any form, on in-memory drives, directories, and drives that share a target, are read-only, have quotas or fail.",
 "Tests use a handful of well-formed paths and one or two drives; parsing, resolution relative to the current drive and failure atomicity depend on the combination.",
 ["std/src/storage/mod.rs", "std/src/storage/cmds.rs", "std/src/storage/mem.rs", "std/src/storage/fs.rs"],
 [("path parsing", "std/src/storage/mod.rs: Location::new"), ("resolution", "std/src/storage/mod.rs: Storage::get_drive"), ("mounting", "std/src/storage/mod.rs: Storage::mount"), ("listings", "std/src/storage/cmds.rs: show_dir")],
 "stateful model-based testing: random operations vs. a model of drives and files, compared after each step", STDMODEL, ["all files after each operation", "mounted drives and location", "printed listings", "names given to drives"])

prop("S07", "Unsaved changes to the stored program are never lost without asking",
 "For every interactive session, the stored program is what the edits, loads and saves made of it, and it is marked as modified exactly when it has edits that were not saved. LOAD, NEW and leaving with END ask before discarding a modified program and keep it and its mark, name and text for any answer other than yes, for an interrupted prompt, and when the new program cannot be loaded. SAVE writes the program's text to the given or last name, and a failed SAVE keeps the modification mark and the name.",
 ["histories", "inputs", "faults"], "All sequences of edits, loads, saves, runs and exits with any answers to the prompts, with missing, invalid and read-only files.",
 "Tests check each command with a fake program that is or is not modified; protection depends on the marks kept through histories of edits, failed saves and loads.",
 ["std/src/program.rs", "repl/src/editor.rs", "repl/src/lib.rs"],
 [("confirmation", "std/src/program.rs: continue_if_modified"), ("loading and saving", "std/src/program.rs: LoadCommand, SaveCommand, NewCommand"), ("exit", "repl/src/lib.rs: run_repl_loop"), ("modification mark", "repl/src/editor.rs: Editor")],
 "stateful model-based testing: random sessions typed into the REPL with the actual editor vs. a model of the stored program", STDMODEL + " The end of the input leaves without asking, as there is nobody to answer.", ["printed lines in order", "program text, name and mark", "files", "exit code"])
