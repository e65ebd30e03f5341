prop("U01", "The line editor shows and returns the line that the keys describe",
 "For every sequence of keys, prompt, initial text, history and console width, the line editor returns the line that results from applying each key to a line of characters, keeps the visible part of that line, the prompt and the cursor in agreement with it before each key is read, and confines itself to its row. Secure input shows asterisks only. History entries are recalled with the arrows, edits to recalled lines do not alter other entries, submitted lines are added once and abandoned lines leave no trace.",
 ["histories", "inputs"], "All sequences of keys over consoles of 3 to 30 columns, with multi-byte characters, initial text and any history.",
 "Tests replay handwritten key sequences against recorded operations; the view scrolls as a function of the whole history of keys and widths.",
 ["std/src/console/readline.rs"],
 [("line buffer and view", "std/src/console/readline.rs: read_line_interactive"), ("partial redraw", "std/src/console/readline.rs: update_line"), ("history", "std/src/console/readline.rs: read_line_interactive")],
 "model-based testing on a strict terminal emulator: random keys vs. a model of the line, compared before each key", STDMODEL, ["screen contents and cursor before each key", "returned line", "history"])

prop("U04", "The full-screen editor edits and shows exactly the text that the keys describe",
 "For every program and sequence of keys, the editor applies each key to the text: typing, deletion, splitting and joining of lines with automatic indentation, tabs to multiples of 4, and motion that remembers the column. Before each key is read, the screen shows the part of the text around the cursor, scrolled no more than needed to keep it visible, and a status bar with the name, unsaved changes mark and position. Leaving restores the screen; the text, name and unsaved changes mark given to the rest of the system are those of the edits made.",
 ["histories", "inputs"], "All sequences of loads, renames and edition sessions with any keys, on consoles of 1 to 60 columns and 2 to 8 rows, with text in any script, failing reads included.",
 "Tests replay handwritten keys against the operations they emit; partial repaints are only right relative to what the screen held, which depends on the whole history.",
 ["repl/src/editor.rs", "std/src/console/linebuffer.rs"],
 [("edition and partial repaints", "repl/src/editor.rs: Editor::edit_interactively"), ("status bar", "repl/src/editor.rs: Editor::refresh_status"), ("character operations", "std/src/console/linebuffer.rs: LineBuffer")],
 "model-based testing on a strict terminal emulator: random keys vs. a model of the text and the screen, compared before each key", STDMODEL, ["screen contents, colors and cursor before each key", "text, name and dirty flag after each session"])

prop("U02", "The graphical console shows the text, cursor and images it is asked to",
 "For every sequence of console operations and every font and screen size, the pixels of the graphical console are those of the text written, in the colors active when it was written, wrapped at the last column and scrolled at the last row, with the cursor drawn at its position while visible and nowhere else. Clearing affects exactly its region, entering and leaving the alternate screen restores pixels, position and colors, and pixels not covered by an operation keep their value. With synchronization off nothing reaches the LCD until it is requested, and then the LCD equals the frame in memory.",
 ["histories", "inputs"], "All sequences of print, write, clear, locate, color, move, show/hide cursor, alternate screen, sync, pixel reads and drawing operations over LCDs of any size with 2 or more rows and columns and fonts 5x8, 8x16 and 16x16.",
 "Tests compare single operations against recorded calls or images; what is on the screen depends on the whole history: saved pixels under the cursor, scrolling and deferred updates.",
 ["std/src/gfx/lcd/mod.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/console/graphics.rs"],
 [("text, cursor and scrolling", "std/src/console/graphics.rs: GraphicsConsole"), ("frame and damage tracking", "std/src/gfx/lcd/buffered/mod.rs: BufferedLcd"), ("geometry", "std/src/gfx/lcd/mod.rs")],
 "model-based testing: random operations vs. a pixel model over an in-memory LCD, compared after every operation", STDMODEL, ["pixels of the LCD", "results of size and peek operations"])

prop("U03", "Drawing commands paint the requested shape, in its color, and nothing else",
 "For every sequence of GFX_ commands from a program, with coordinates in or out of the screen, each paints its shape: a rectangle exactly its outline or area; a line a connected path between its ends within half a pixel of the segment; a circle a closed symmetrical ring or disc of the given radius; a triangle or polygon its edges and interior; and a flood fill exactly the connected region of the color at its origin. Shapes are clipped to the screen, other pixels do not change, reading a pixel returns its color, invalid arguments are errors, and every command finishes.",
 ["inputs", "histories"], "All sequences of drawing and color commands with coordinates from the whole integer range over small and medium screens.",
 "Tests draw a dozen fixed shapes; correctness of rasterization, clipping and termination is a statement about all coordinates, including those outside of the screen.",
 ["std/src/gfx/mod.rs", "std/src/console/drawing.rs", "std/src/gfx/lcd/buffered/mod.rs"],
 [("commands", "std/src/gfx/mod.rs: GfxLineCommand and siblings"), ("rasterization", "std/src/console/drawing.rs"), ("clipping", "std/src/gfx/lcd/mod.rs: LcdSizedRect")],
 "property-based testing: random drawing programs vs. geometric must-paint and must-not-paint sets computed independently per shape", STDMODEL, ["pixels after each command", "errors reported"])

prop("U06", "HELP and LIST show all of what was asked for, page by page, on any console",
 "On every console, HELP lists all topics, and HELP with the name of a topic, in any case and shortened to any prefix that no other topic shares, prints all of that topic: for callables registered by any host, each syntax, the blurb and all paragraphs, refilled so that no line that has more than one word exceeds the console; prefixes of several topics are an error that names exactly these, and unknown topics are errors. Long outputs of HELP and LIST pause once a screenful was shown and not before, never lose a line, and end at once, with an error, upon ESC or CTRL-C; the colors of the console are as before in all cases.",
 ["inputs", "histories"], "All topics, prefixes and cases, any host callables and programs, console sizes, colors and keys pressed at the pauses.",
 "Tests fix a console of one size and a few topics; paging depends on the lengths of all lines and on the keys, and refilling on every word.",
 ["std/src/help.rs", "std/src/console/pager.rs", "std/src/console/format.rs", "std/src/program.rs"],
 [("topics", "std/src/help.rs: Topics::find, HelpCommand"), ("paging", "std/src/console/pager.rs: Pager"), ("refilling", "std/src/console/format.rs: refill"), ("listing", "std/src/program.rs: ListCommand")],
 "property-based testing: random topics, consoles, programs and keys vs. a model of the text and of the pauses", STDMODEL, ["lines and colors shown", "keys read", "errors reported"])

prop("U07", "The ST7735S LCD shows the console and its buttons act as its keys",
 "For every sequence of console operations on the ST7735S console, the panel, initialised by the driver, holds after each operation the pixels of the console's text, images and cursor, and with synchronization off only those of the last request. The chip is addressed within its visible area, with every window filled completely, no transfer longer than the bus allows and partial transfers resumed. While a button is pressed, each scan of the buttons, every 50 ms, delivers its key exactly once and in order, mixed with the keys of the keyboard, of which none is lost, to polls and waits alike. A failed transfer is an error of the operation that needs it, and leaving clears the panel and turns its light off.",
 ["histories", "inputs", "schedules"], "All sequences of console operations and presses of buttons, fonts and sizes of the bus's transfers.",
 "Tests of the driver do not exist because it needs the hardware; the shared graphics code is tested on recorded calls.",
 ["st7735s/src/lib.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/console/graphics.rs"],
 [("initialisation and addressing", "st7735s/src/lib.rs: ST7735SLcd"), ("buttons", "st7735s/src/lib.rs: ST7735SInput"), ("deferred updates", "std/src/gfx/lcd/buffered/mod.rs: BufferedLcd")],
 "model-based testing: random operations and presses vs. a pixel model over an emulated panel, bus and pins", STDMODEL, ["memory of the emulated panel", "pins and transfers", "keys read"])

prop("U08", "The console in a window shows, draws, plays and reads what programs ask for",
 "For every sequence of operations on the SDL console, of any resolution, font and colors, the window shows after each the same text, cursor, colors and alternate screen as the other graphical consoles, and each shape that programs draw, clipped to it. With synchronization off it shows the last request only. Each key typed in the window, with control and lock keys, is delivered exactly once and in order to polls and waits alike; CTRL-C also interrupts, once; other events are not keys. Each tone plays for its duration at its frequency before its command ends. Invalid settings are errors, and closing the console ends its thread.",
 ["histories", "inputs", "schedules"], "All sequences of console operations, drawing commands, window events and tones, and settings of the console.",
 "Tests compare fifteen images and a few keys; the protocol between the console and its host, the primitives that it has of its own and the order of events depend on the history.",
 ["sdl/src/host.rs", "sdl/src/console.rs", "sdl/src/lib.rs", "std/src/console/graphics.rs"],
 [("host loop and raster operations", "sdl/src/host.rs"), ("console proxy", "sdl/src/console.rs: SdlConsole"), ("settings", "sdl/src/lib.rs: setup")],
 "model-based testing: random operations, events and tones vs. a model of the pixels, keys and samples", STDMODEL, ["pixels of the window", "keys and signals", "samples given to the sound device"])
