WEBMODEL = ("Random search only: no absence claim. The browser is simulated: the frontend's code runs natively on "
            "replacements of web-sys, js-sys and wasm-bindgen. The interpreter, the console over its raster operations "
            "and the REPL are the real ones on both sides and are checked by other properties.")
prop("W01", "Programs in the browser's local storage survive, unaltered and by any case",
 "Whatever the user does at the page of the web interface, the browser's local storage holds exactly the programs that were saved or copied and not deleted since, byte by byte and with the time of their last change, under names for which case does not matter: DIR, LOAD, KILL, COPY and AUTOEXEC see the same programs in this session and after the page is loaded again. Programs stored by older versions under names of any case remain available, whatever the order in which the browser lists its entries. A change that the browser refuses because its storage is full, and names that no program can have, are reported as errors that leave all other programs as they were. Entries of the storage that belong to others are never touched, and nothing ends the session.",
 ["inputs", "histories", "faults"], "All sequences of commands, edits and page loads, any initial contents of the storage, orders of its keys, time zones and points at which it is full.",
 "The tests of the web frontend need a browser and do not run here; even there they use one operation on a fresh storage.",
 ["web/src/store.rs", "web/src/lib.rs"],
 [("drive", "web/src/store.rs: WebDrive"), ("entries", "web/src/store.rs: Key, Entry"), ("setup", "web/src/lib.rs: setup_storage")],
 "stateful property-based testing: random sessions of the real frontend on a simulated browser vs. the same session on a reference drive (differential), with injected storage faults", WEBMODEL, ["local storage of the browser", "pixels of the canvas"])

prop("W02", "The page shows, plays and reads what a session does, and never freezes",
 "For every session at the page of the web interface, each time the program awaits input, the canvas shows pixel by pixel what the console was asked to print and draw, and what was drawn is painted soon without further actions of the user. All keys of the keyboard, shortcuts and on-screen controls reach the program once, in order and with their meaning, and CTRL+C stops any program while others are only seen when asked for. SLEEP waits for the given time, SOUND plays just the tones asked for and for as long as asked, and impossible durations are errors. A program that runs for long lets the browser respond to the user regularly, and errors or the end of the interpreter never end the session.",
 ["inputs", "histories", "schedules"], "All sequences of lines typed, keys and pokes while a program runs, sizes of the canvas, speeds of the browser and clocks.",
 "The tests of the web frontend need a browser and do not run here; timing, key events and pixels of whole sessions are in none.",
 ["web/src/lib.rs", "web/src/canvas.rs", "web/src/input.rs", "web/src/audio.rs", "web/src/datetime.rs"],
 [("drawing", "web/src/canvas.rs: CanvasRasterOps"), ("keys", "web/src/input.rs: WebInputOps, OnScreenKeyboard"), ("tones", "web/src/audio.rs: WebAudioOps"), ("time", "web/src/datetime.rs: WebDateTime, do_sleep"), ("fairness", "web/src/lib.rs: WebYielder"), ("session", "web/src/lib.rs: WebTerminal::run_repl_loop")],
 "stateful property-based testing: random sessions of the real frontend on a simulated browser vs. the same session on reference devices (differential)", WEBMODEL, ["pixels of the canvas", "delays requested", "tones played", "time between turns of the browser"])
