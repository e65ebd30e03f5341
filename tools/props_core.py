prop("C01", "Expressions evaluate to the values that the language defines",
 "Every expression over booleans, doubles, integers and strings yields the value given by operator precedence and left-to-right evaluation, with the defined promotions between integers and doubles, wrapping nothing silently: integer overflow, division or modulo by zero, negative shift or exponent, failed conversions and out-of-range subscripts stop the program with an error at the position of the operator or reference instead. Array elements and scalars hold exactly the last value assigned to them and start at the default value of their type. DIM of an array that cannot be represented or allocated is an error too, not a crash.",
 ["programs", "inputs"], "All well-typed straight-line programs of assignments, array element assignments, DIMs and output over all operators, types, literals in all bases and boundary values.",
 "The golden tests evaluate one operator at a time on a few hand-picked operands; combinations of precedence, register allocation, promotion and failure are an unbounded space.",
 ["core/src/parser.rs", "core/src/compiler/exprs.rs", "core/src/vm/context.rs", "core/src/num.rs", "core/src/mem.rs"],
 [("precedence climbing over operator spans", "core/src/parser.rs: ExprParser"), ("typed opcode selection and promotion", "core/src/compiler/exprs.rs: compile_expr"), ("checked arithmetic in opcode handlers", "core/src/vm/context.rs: do_*"), ("array bounds", "core/src/mem.rs: ArrayData::flat_index")],
 "model-based property testing: random programs vs. a reference interpreter", MODEL, ["values passed to host commands", "stop reason and position"])

prop("C02", "Control flow follows the program's structure",
 "IF/ELSEIF/ELSE, SELECT CASE with IS, TO and value lists, FOR/NEXT with any step, WHILE, DO in all its forms, EXIT DO and EXIT FOR, GOTO, GOSUB/RETURN and END execute exactly the statements that their definitions prescribe, in order, nested in any combination. A program ends with the exit code given to END, or normally when it runs out of statements, or with an error at the position of the failing statement. RETURN without a matching GOSUB is an error.",
 ["programs"], "All terminating programs built from nested blocks, jumps and subroutines over definitely assigned variables.",
 "The golden tests cover each statement in isolation or with one nesting; miscompiled jumps and clobbered registers only show up in particular combinations.",
 ["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/parser.rs", "core/src/vm/context.rs"],
 [("jump fixups and exit stacks", "core/src/compiler/top.rs: compile_if, compile_select, compile_for, compile_do, compile_while"), ("label resolution", "core/src/compiler/codegen.rs: apply_fixups"), ("call stack", "core/src/vm/context.rs: do_gosub, do_return")],
 "model-based property testing: random programs vs. a reference interpreter", MODEL, ["sequence of host command invocations", "stop reason"])

prop("C03", "Calls bind arguments, isolate locals and return results",
 "A call to a user-defined SUB or FUNCTION evaluates its arguments once, left to right, converts them to the declared types and runs the body with its own variables, so that nothing of the caller but shared globals can be seen or changed by the body, no matter how deeply calls nest within expressions or recurse. A function yields the last value assigned to its name or the default value of its type, also after EXIT. Calls to host functions receive exactly the argument values written in the program.",
 ["programs"], "All terminating programs with SUBs and FUNCTIONs of up to 3 parameters, DECLARE, nested and recursive calls, early exits and calls to host functions and commands.",
 "Tests call functions from simple positions; whether live temporaries survive a call depends on the whole expression around it and on the callee.",
 ["core/src/compiler/exprs.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/vm/context.rs"],
 [("argument placement in consecutive registers", "core/src/compiler/args.rs: compile_args"), ("frame pointer handling", "core/src/vm/context.rs: do_call, do_return"), ("temporaries scoping", "core/src/compiler/syms.rs: TempScope")],
 "model-based property testing: random programs vs. a reference interpreter", MODEL, ["argument values seen by host commands"])

prop("C04", "Run-time errors are caught and resumed as ON ERROR prescribes",
 "With ON ERROR RESUME NEXT, a failing statement has no effect other than those it had before failing and execution continues at the next statement to be executed, honoring block and callable boundaries; with ON ERROR GOTO, control moves once to the handler in the scope that armed it and the handler is disarmed until rearmed; with ON ERROR GOTO 0 or no handler, the program stops. The last error available to the program and the one reported to the host carry the message and position of the failing expression or command.",
 ["programs", "fault_sequences"], "All programs in which arithmetic, conversions, subscripts, host commands and called functions fail at any nesting level, under any sequence of ON ERROR statements; errors within the tests of SELECT and the bounds of FOR under RESUME NEXT are excluded.",
 "Tests trigger one error per program in a straight line; where execution resumes depends on the block structure and call depth at the point of failure.",
 ["core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/compiler/codegen.rs", "core/src/compiler/top.rs"],
 [("statement start markers", "core/src/compiler/codegen.rs: mark_statement_start"), ("handler dispatch", "core/src/vm/mod.rs: exec"), ("frame unwinding", "core/src/vm/context.rs: handler depth")],
 "model-based property testing: random programs with injected failures vs. a reference interpreter", MODEL, ["output after each failure", "LASTERR"])

prop("C05", "Programs entered piecewise behave as one continuing session",
 "Chunks of code given one after another to the same session see all variables, arrays, callables and data defined by earlier chunks, wherever those stopped: at their end, with END, or with an error. A chunk that is rejected by the compiler reports its error and has no effect whatsoever on the session. Labels and control flow of earlier chunks do not leak into later ones.",
 ["histories", "programs"], "All sequences of up to 5 chunks, with rejected chunks (type errors, syntax errors, unknown labels, redefinitions) interleaved anywhere.",
 "Tests compile a couple of chunks in sequence; leftovers from a rejected or aborted chunk only matter for specific later chunks.",
 ["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/compiler/syms.rs", "core/src/image.rs", "core/src/vm/context.rs"],
 [("transactional compilation", "core/src/compiler/top.rs: compile_more"), ("image deltas", "core/src/image.rs: Image::append"), ("state reset on stop", "core/src/vm/mod.rs: exec")],
 "stateful model-based testing of compile/run histories against a reference interpreter", MODEL, ["output per chunk", "image disassembly before and after a rejection", "DATA values"])

prop("C06", "Any text is compiled or rejected cleanly",
 "Compiling arbitrary text never crashes: it either succeeds or fails with a message that carries a line and column lying within the text. The outcome is a pure function of the text. Expressions and block statements are accepted if and only if they are well formed: operators have their operands, parentheses and arguments match, and blocks are properly nested and exits are within what they leave. After a rejection the compiler and its image are as before and remain usable.",
 ["inputs"], "All texts of up to a few hundred characters: random characters, random tokens, and mutated or truncated programs.",
 "Each test feeds a known malformed program; parser recovery and arithmetic on literals must hold for any input.",
 ["core/src/lexer.rs", "core/src/parser.rs", "core/src/reader.rs", "core/src/compiler/top.rs"],
 [("tokenizer with positions", "core/src/lexer.rs"), ("recursive-descent parser with error reset", "core/src/parser.rs"), ("char reader", "core/src/reader.rs: CharReader")],
 "structured fuzzing of the compiler with mutation of generated programs, and differential testing of acceptance against a reference recognizer", "Random search only. Inputs are bounded to a few hundred characters and shallow nesting.", ["compiler result", "image"])

prop("C07", "Ill-typed programs are rejected before they run, valid ones are accepted",
 "A program with an operator applied to the wrong types, a mismatched assignment, argument, condition or subscript, a wrong number of subscripts, a reference whose type annotation contradicts the definition, or an undefined name is rejected as a whole with the message for the first such mistake in compilation order at the position of the offending element. A program free of these mistakes is accepted.",
 ["programs"], "All programs obtained from valid programs by changing one expression node at random, or by inserting a statement written without regard for types.",
 "Tests check the message of some forty handwritten mistakes at top level; the position and acceptance must be right for every context an expression can appear in.",
 ["core/src/compiler/exprs.rs", "core/src/compiler/top.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs"],
 [("static types of registers", "core/src/compiler/exprs.rs: compile_expr_as_type"), ("symbol lookup with annotations", "core/src/compiler/syms.rs: get_var")],
 "model-based mutation testing: an independent static checker decides each mutated program", MODEL, ["compiler error text and position"])

prop("C08", "The host can interleave with, abandon and restart execution at any point",
 "Whether host commands complete synchronously or asynchronously, the program's visible behaviour is the same. Every loop, including endless ones, returns control to the host so that it can interrupt the program; what was shown until then is a prefix of the uninterrupted run. After an interruption or an abandoned asynchronous command, the machine runs any further program as if the interrupted one had stopped by itself. After being reset, the machine is like a new one; after being cleared, it runs the same program again from the start with the same result.",
 ["schedules", "histories", "programs"], "All programs and all points at which the machine returns control to the host, with a second program run afterwards.",
 "Tests interrupt one or two fixed loops; the state left behind depends on where the interruption lands.",
 ["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/codegen.rs"],
 [("yield on backward jumps", "core/src/vm/context.rs: do_jump"), ("interrupt", "core/src/vm/mod.rs: Vm::interrupt"), ("async upcalls", "core/src/vm/mod.rs: UpcallHandler::invoke")],
 "schedule-exploring property testing with random interruption points vs. a reference interpreter", MODEL, ["output prefix", "output of the second program"])

prop("C09", "The host reads exactly the variables that the program holds",
 "After any chunk, host queries by name (in any letter case) return the current value of each assigned program variable, global and array element, and the values given to predefined globals, which programs can read and change like any other. Queries for names that do not exist yield nothing; using a scalar as an array or the reverse, or subscripts that are out of bounds, yield an error. The answers are also right while the program is stopped waiting for a host command, be it at top level or within callables.",
 ["programs", "histories"], "All sequences of chunks that define and modify scalars and arrays of all types and up to 3 dimensions.",
 "Tests query a couple of variables after a trivial program; the mapping from names to registers depends on everything compiled before.",
 ["core/src/vm/mod.rs", "core/src/image.rs", "core/src/mem.rs", "core/src/compiler/top.rs"],
 [("global and program variable maps", "core/src/image.rs: GlobalVarInfo"), ("pointer tags", "core/src/mem.rs")],
 "stateful model-based testing of host queries against a reference interpreter", MODEL, ["Vm::get_global*, Vm::get_program*"])

prop("C10", "Layout, letter case and spelling do not change what a program does",
 "Two programs that differ only in letter case of keywords and names, spacing, blank lines, comments, colon-separated statements, line endings, a missing final newline, redundant parentheses around expressions or the base of integer literals show the same output and stop in the same way.",
 ["programs", "inputs"], "All valid programs and random re-renderings of their syntax tree.",
 "Tests use one canonical layout plus few variants; positions of separators interact with every statement form.",
 ["core/src/lexer.rs", "core/src/parser.rs", "core/src/reader.rs"],
 [("token spans and line continuation", "core/src/lexer.rs: Lexer"), ("statement terminators", "core/src/parser.rs: parse_one")],
 "metamorphic testing: canonical vs. randomized rendering of the same syntax tree", "Random search only; error messages are compared without positions.", ["output", "stop reason"])

prop("C11", "Running out of a resource is a clean error that occurs exactly at the limit",
 "A call or GOSUB beyond the depth that the host allows, or an operation beyond the heap that it allows, is a run-time error at the position of the statement that can be caught like any other and whose occurrence depends on nothing but the calls in progress and the memory in use; all of the stack is available again once the program stops. Programs with more variables, shared variables, nested operands, arguments, dimensions, constants, host commands or instructions than the machine supports are rejected with the error for that resource, at the line that exceeds it and with no effect on the session; those that fit work.",
 ["programs", "configurations"], "All programs and limits of the call stack and of the heap; all amounts of each kind of definition around what the machine supports, at top level, in callables, in one chunk or more, and with definitions by the host.",
 "Tests run a handful of programs that hit each limit once; off-by-ones, leaks and leftovers show only for specific depths, sizes and histories.",
 ["core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/mem.rs", "core/src/bytecode.rs", "core/src/compiler/syms.rs", "core/src/compiler/codegen.rs"],
 [("call stack limit", "core/src/vm/context.rs: push_frame"), ("heap limit", "core/src/mem.rs: Heap::push"), ("register allocation", "core/src/compiler/syms.rs: put_var, TempScope"), ("jump targets and tables", "core/src/compiler/codegen.rs: make_target, get_constant, get_upcall")],
 "model-based property testing with a reference interpreter that counts calls, search for the least sufficient heap, and boundary-value generation for each table", MODEL, ["output", "error text and position", "later chunks"])

prop("C12", "Hosts receive the arguments that programs write, per the syntax they declare",
 "A command or function declared by the host with any combination of singular, optional-value, by-reference and repeated arguments, any separators, and several alternative syntaxes, accepts exactly the calls that match one of its syntaxes and rejects the others before running anything. What the host reads through its scope (argument count, values after conversion, types, separators, missing arguments, positions, variable references and what is stored through them) is what the program wrote, in calls at top level, within callables and nested in expressions.",
 ["programs", "configurations"], "All sets of up to a few callables with random syntaxes, and random programs that call them correctly and incorrectly.",
 "Tests pin each syntax element with one or two calls; what a host sees depends on the combination of required, optional and repeated parts, their separators, and the registers live around the call.",
 ["core/src/compiler/args.rs", "core/src/callable.rs", "core/src/vm/context.rs", "core/src/mem.rs"],
 [("syntax selection and argument compilation", "core/src/compiler/args.rs: compile_args"), ("argument tags read back by hosts", "core/src/callable.rs: Scope"), ("references to variables", "core/src/vm/context.rs: do_load_register_ptr")],
 "model-based property testing over random callable syntaxes and random calls to them", "Random search only; the acceptance model is independent of the compiler. Up to three syntaxes per callable and a dozen arguments per call.", ["what the host's callables read from their scopes", "compiler error text and position"])
