prop("P01", "On a Raspberry Pi, programs and the console get the pins and bus they ask for",
 "On a Raspberry Pi, setting up a pin gives it the mode and pull resistor asked for and changes no other pin nor any level; reads tell the level of pins set up as inputs and writes set that of outputs, while on all others they are errors that tell to set them up. Pins may be set up again at any time; clearing one, clearing all, starting over and the end of the program give them back in their former modes, and a pin that does not exist or that others use, such as the console, is an error without effect. The chip is only opened for the first pin, and if it is not accessible the error tells why and a later attempt works. The SPI bus opens with the clock and mode asked for, passes on exactly the bytes that it accepts, tells the kernel's limit of transfers, and rejects other buses and slaves. The console on the LCD works over both, whatever the limit, and its buttons are its keys.",
 ["inputs", "histories", "faults"], "All sequences of GPIO statements on any pins, with lines driven from outside, used by others and in any former mode, chips and buses that fail, limits of transfers, partial transfers and drawing.",
 "The tests of this crate only read files with the limit of transfers: nothing else runs without the hardware.",
 ["rpi/src/gpio.rs", "rpi/src/spi.rs", "st7735s/src/lib.rs"],
 [("pins", "rpi/src/gpio.rs: RppalPins"), ("bus", "rpi/src/spi.rs: spi_bus_open, RppalSpiBus"), ("console", "st7735s/src/lib.rs: St7735sConsoleFactory")],
 "model-based testing: random programs and fault injection on a simulated board vs. a model of its lines; differential for the console (same operations on ideal pins and bus)",
 "Random search only: no absence claim. The board is simulated: the crate runs on a replacement of the rppal library, and the file with the limit of transfers is served by the harness.", ["modes, pulls and levels of the lines", "bytes sent over the bus", "errors reported", "keys delivered"])
