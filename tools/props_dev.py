prop("S08", "GPIO commands perform exactly the pin operations that the program asks for",
 "For every program, GPIO_SETUP, GPIO_CLEAR, GPIO_READ and GPIO_WRITE perform on the hardware one operation each, in program order, on the pin and with the mode or value given, whatever expressions compute them; a read yields the level of the pin. Pins out of 0 to 255 and unknown modes are errors at the offending argument without any operation, and hardware failures are errors of the statement that other statements do not suffer from. Starting over resets all pins, and with mock pins injected reads are served in order and the trace tells all operations since the start.",
 ["inputs", "histories", "faults"], "All sequences of GPIO statements and chunks with any pins, modes, nested reads and loops, on recording and mock pins, with failures at any operation.",
 "Tests check one statement each; order, nesting, error isolation and the mock queue are about sequences.",
 ["std/src/gpio/mod.rs", "std/src/gpio/fakes.rs"],
 [("commands", "std/src/gpio/mod.rs: GpioSetupCommand and siblings"), ("mock pins", "std/src/gpio/fakes.rs: MockPins"), ("reset", "std/src/gpio/mod.rs: PinsClearable")],
 "model-based testing: random programs on recording or mock pins with injected failures vs. a model of operations and outputs", STDMODEL, ["operations received by the pins", "values read and errors reported"])

prop("S09", "SLEEP, SOUND, BEEP and MONOTONIC pass on exactly the times that they are given",
 "For every program, SLEEP suspends it for the given number of seconds, integer or fractional, SOUND plays one tone of the given pitch and duration, BEEP plays the standard tone, and MONOTONIC tells the time of the host's clock, each once and in program order. Negative, infinite, undefined or unrepresentable durations and pitches that are not positive are errors at the offending argument that neither sleep nor sound; a console that fails to play is an error of the statement.",
 ["inputs", "faults"], "All sequences of these statements with numbers from their whole range, special values included, and consoles that fail at any point.",
 "Tests try a few round numbers; conversions of arbitrary doubles to durations have many edge cases that crash or round wrongly.",
 ["std/src/datetime.rs", "std/src/sound/cmds.rs"],
 [("SLEEP and MONOTONIC", "std/src/datetime.rs: SleepCommand, MonotonicFunction"), ("SOUND and BEEP", "std/src/sound/cmds.rs: SoundCommand, BeepCommand")],
 "property-based testing: random programs on a virtual clock and a recording console vs. expected sleeps, tones and errors", STDMODEL, ["durations slept", "tones played", "errors reported"])
