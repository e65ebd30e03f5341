CLIMODEL = ("Random search only: no absence claim. Drives the binary built from /repo/cli with its default "
            "features; the SDL and Raspberry Pi back ends are compiled out.")
prop("V03", "The command line tool runs what it is told and reports how it ended",
 "For any arguments and input: a script runs exactly as the language and library define, with the requested console, pins, local drive and property line; its output goes to standard output, its errors (once, with position) to standard error, and the tool exits with the code given to END, 0 at the end of the script, 1 upon an error, and 2 when misused, with an explanation. Without a script, the tool starts a session that runs AUTOEXEC.BAS and then each line of its input until the end. Property lines and console specifications mean what they say wherever valid, and anything else is rejected or ignored as documented. No argument, specification or script, even if not text, crashes the tool.",
 ["inputs", "histories"], "All command lines, property lines and console specifications; all files given as scripts; all inputs and initial contents of the drive.",
 "Tests cover a handful of recorded transcripts and specifications.",
 ["cli/src/lib.rs", "cli/src/main.rs", "cli/src/propline.rs", "cli/src/console.rs", "std/src/console/spec.rs", "terminal/src/lib.rs"],
 [("arguments and exit code", "cli/src/main.rs, cli/src/lib.rs"), ("property line", "cli/src/propline.rs"), ("console specification", "std/src/console/spec.rs: ConsoleSpec"), ("standard input", "terminal/src/lib.rs: stdio_key_handler")],
 "property-based testing of the built binary with generated arguments, scripts and inputs vs. models of the tool, property lines and specifications", CLIMODEL, ["exit code", "standard output", "standard error", "files of the local drive"])

prop("U05", "The terminal shows what the program draws and delivers what is typed",
 "For every program, terminal size and sequence of keys, whatever the encoding of keys the terminal uses and the pace of typing: when the tool awaits a key, the terminal shows exactly the characters, colors, cursor and (alternate) screen of an ideal console given the same operations, and every key typed has its effect exactly once and in order. Lines that scroll away are intact. CTRL-C stops any running program: a script ends with its exit code and a session goes on. However the tool ends, it gives the terminal back as it found it.",
 ["inputs", "histories", "schedules"], "All programs, sessions, terminal sizes, key sequences, encodings of keys, and bursts in which keys arrive.",
 "Tests cannot see the terminal: they call the key decoder, and everything that is written to a terminal is untested.",
 ["terminal/src/lib.rs", "std/src/console/mod.rs", "repl/src/editor.rs", "cli/src/lib.rs"],
 [("keys", "terminal/src/lib.rs: parse_key_event, raw_key_handler"), ("screen", "terminal/src/lib.rs: TerminalConsole"), ("CTRL-C", "core machine signals")],
 "property-based testing of the built binary on a pseudo terminal with an emulator vs. the same run on an ideal console (differential)", CLIMODEL + " The emulator behaves like xterm.", ["screen of the emulator", "exit code", "terminal attributes"])
