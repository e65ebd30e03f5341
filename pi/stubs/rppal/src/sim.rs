//! The simulated Raspberry Pi. Each thread that opens the GPIO chip or the SPI bus gets those of the
//! board that was installed in that thread.

use std::cell::RefCell;
use std::sync::{Arc, Mutex};

/// Number of GPIO lines, as in a Raspberry Pi with the BCM2835.
pub const LINES: usize = 54;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Input,
    Output,
    Alt0,
    Alt3,
    Null,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bias {
    Off,
    PullDown,
    PullUp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub mode: Mode,
    pub bias: Bias,
    /// Level that the line has as an output.
    pub latch: bool,
    /// What drives the line from outside, if anything does.
    pub outside: Option<bool>,
    pub taken: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Opened,
    Mode(u8, Mode),
    Bias(u8, Bias),
    Read(u8),
    Write(u8, bool),
    Spi { bus: u8, slave: u8, clock: u32, mode: u8 },
    Transfer(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Failure {
    UnknownModel,
    PermissionDenied,
    Io,
}

pub struct Board {
    pub lines: Vec<Line>,
    pub log: Vec<Event>,
    /// Why opening the chip fails.
    pub chip_failure: Option<Failure>,
    /// Why opening the bus fails.
    pub bus_failure: Option<Failure>,
    /// Writes to the bus until one fails.
    pub write_failure: Option<usize>,
    /// How many bytes of each transfer are accepted.
    pub accept: usize,
    /// Contents of the file with the maximum size of transfers.
    pub bufsiz: Option<Vec<u8>>,
}

impl Board {
    pub fn level(&self, pin: u8) -> bool {
        let l = &self.lines[pin as usize];
        match (l.mode, l.outside) {
            (Mode::Output, _) => l.latch,
            (_, Some(v)) => v,
            (_, None) => l.bias == Bias::PullUp,
        }
    }
}

thread_local! {
    static BOARD: RefCell<Option<Arc<Mutex<Board>>>> = const { RefCell::new(None) };
}

/// Makes `board` the one of this thread.
pub fn install(board: Option<Arc<Mutex<Board>>>) {
    BOARD.with(|b| *b.borrow_mut() = board);
}

pub fn board() -> Arc<Mutex<Board>> {
    try_board().expect("no board in this thread")
}

pub fn try_board() -> Option<Arc<Mutex<Board>>> {
    BOARD.try_with(|b| b.borrow().clone()).ok().flatten()
}
