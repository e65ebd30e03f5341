STDMODEL = ("Random search only: no absence claim. Trusts an independent reference model written from the "
            "built-in reference documentation and observed behaviour.")
prop("S01", "String functions operate on characters and fail cleanly",
 "ASC, CHR, INSTR, LCASE, LEFT, LEN, LTRIM, MID, RIGHT, RTRIM, SPACE, STR, TRIM, UCASE and VAL, nested in any combination and over any text (multi-byte characters included), return the documented value counted in characters, and stop with an error at the position of the offending argument when that argument is out of its domain. No argument crashes the interpreter.",
 ["inputs", "programs"], "All nested calls over random texts, lengths and positions, boundary integers included.",
 "Tests call each function on a few ASCII strings; lengths, offsets and character boundaries combine in an unbounded space.",
 ["std/src/strings.rs"],
 [("character-based slicing", "std/src/strings.rs: LeftFunction, MidFunction, RightFunction"), ("argument checks", "std/src/strings.rs: exec of each function"), ("number formatting", "std/src/strings.rs: StrFunction")],
 "model-based property testing of nested calls vs. independent implementations", STDMODEL, ["values passed to host commands", "error text and position"])

prop("S02", "Numeric and array functions return the documented values or fail",
 "ABS, CINT, FIX, INT, ROUND, SGN, SQR, EXP, LOG, MAX, MIN, PI, the trigonometric functions under DEG and RAD, LBOUND and UBOUND return the mathematically defined value of the documented type for every argument in their domain, and stop with an error at the offending argument for all others. RND draws from [0..1], a seed given to RANDOMIZE determines the sequence of draws, and RND(0) repeats the previous one. No argument crashes the interpreter.",
 ["inputs", "programs"], "All programs of random calls over boundary, random, huge and tiny numbers, with changes of the angle mode and of the random seed in between.",
 "Tests evaluate each function on a few numbers; overflow, rounding at halves, non-finite values and the state kept between calls are not sampled.",
 ["std/src/numerics.rs", "std/src/arrays.rs"],
 [("integer conversion", "std/src/numerics.rs: double_to_integer"), ("angle mode", "std/src/numerics.rs: AngleMode"), ("pseudo-random state", "std/src/numerics.rs: Prng"), ("bounds", "std/src/arrays.rs: parse_bound_args")],
 "model-based property testing of random calls vs. independent implementations", STDMODEL + " Floating point results are compared with a relative tolerance of 1e-9.", ["values passed to host commands", "error text and position"])

prop("S03", "Console commands drive the console exactly as documented",
 "PRINT renders every list of values with its separators: zones of 14 characters, signs and spaces of numbers, and the final newline or its absence. INPUT shows its prompt, reads a line, converts it to the variable's type and asks again until it is valid, offering the rejected text for edition. COLOR, LOCATE and CLS pass on exactly the given arguments or fail at the argument out of range without touching the console; INKEY names every key; SCRCOLS and SCRROWS report the size of the console.",
 ["programs", "inputs", "histories"], "All sequences of console commands over any values, console sizes, interactive or not, and any typed answers.",
 "Tests run single commands against a mock console; alignment depends on all the values printed so far and INPUT on the whole typing history.",
 ["std/src/console/cmds.rs", "std/src/console/readline.rs", "std/src/console/mod.rs"],
 [("zone alignment", "std/src/console/cmds.rs: PrintCommand"), ("retry loop", "std/src/console/cmds.rs: InputCommand"), ("range checks", "std/src/console/cmds.rs: ColorCommand, LocateCommand")],
 "model-based property testing: random programs on a recording console vs. a model of each command", STDMODEL, ["console operations", "values passed to host commands", "error text and position"])

prop("S04", "READ consumes DATA in order across the whole session",
 "READ assigns the values of all the DATA statements of the program, in the order of appearance wherever they are nested and starting from the first, one per variable, applying the conversions between numbers; an empty item yields the default value of the variable's type. A wrong type or the end of the data is an error at the offending variable that leaves later variables alone; RESTORE starts over. Code entered later adds its items to the end and continues reading where it was; clearing the machine drops them all.",
 ["programs", "histories"], "All sequences of up to 3 chunks of DATA, READ and RESTORE over all types, with clears in between.",
 "Tests read one list from one program; the position within the data depends on everything read, failed and appended before.",
 ["std/src/data.rs", "core/src/parser.rs", "core/src/compiler/top.rs", "core/src/image.rs"],
 [("read index", "std/src/data.rs: ReadCommand"), ("reset on clear", "std/src/data.rs: ClearableIndex"), ("collection of items", "core/src/image.rs: Image::append")],
 "stateful model-based testing of chunk histories vs. a model of the data stream", STDMODEL, ["values of variables after each READ", "error text and position"])
