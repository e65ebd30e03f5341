use crate::sim::{self, Board, Event, Failure};
pub use crate::sim::{Bias, Mode};
use std::fmt;
use std::io;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub enum Error {
    UnknownModel,
    PinUsed(u8),
    PinNotAvailable(u8),
    PermissionDenied(String),
    Io(io::Error),
    ThreadPanic,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Error::UnknownModel => write!(f, "Unknown Raspberry Pi model"),
            Error::PinUsed(pin) => write!(f, "Pin {} is already in use", pin),
            Error::PinNotAvailable(pin) => write!(f, "Pin {} is not available", pin),
            Error::PermissionDenied(ref path) => write!(f, "Permission denied: {}", path),
            Error::Io(ref err) => write!(f, "I/O error: {}", err),
            Error::ThreadPanic => write!(f, "Thread panicked"),
        }
    }
}

impl std::error::Error for Error {}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::Io(err)
    }
}

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Level {
    Low = 0,
    High = 1,
}

impl From<bool> for Level {
    fn from(e: bool) -> Level {
        if e {
            Level::High
        } else {
            Level::Low
        }
    }
}

impl From<u8> for Level {
    fn from(value: u8) -> Self {
        Level::from(value != 0)
    }
}

impl std::ops::Not for Level {
    type Output = Level;

    fn not(self) -> Level {
        Level::from(self == Level::Low)
    }
}

impl fmt::Display for Level {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if *self == Level::High { "High" } else { "Low" })
    }
}

#[derive(Clone)]
pub struct Gpio {
    board: Arc<Mutex<Board>>,
}

impl fmt::Debug for Gpio {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Gpio")
    }
}

impl Gpio {
    pub fn new() -> Result<Gpio> {
        let board = sim::board();
        let mut b = board.lock().unwrap();
        match b.chip_failure {
            Some(Failure::UnknownModel) => return Err(Error::UnknownModel),
            Some(Failure::PermissionDenied) => {
                return Err(Error::PermissionDenied("/dev/gpiomem".to_owned()))
            }
            Some(Failure::Io) => return Err(Error::Io(io::Error::other("chip is broken"))),
            None => (),
        }
        b.log.push(Event::Opened);
        drop(b);
        Ok(Gpio { board })
    }

    pub fn get(&self, pin: u8) -> Result<Pin> {
        let mut b = self.board.lock().unwrap();
        if pin as usize >= b.lines.len() {
            return Err(Error::PinNotAvailable(pin));
        }
        if b.lines[pin as usize].taken {
            return Err(Error::PinUsed(pin));
        }
        b.lines[pin as usize].taken = true;
        Ok(Pin { pin, board: self.board.clone() })
    }
}

pub struct Pin {
    pin: u8,
    board: Arc<Mutex<Board>>,
}

impl fmt::Debug for Pin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Pin({})", self.pin)
    }
}

impl Drop for Pin {
    fn drop(&mut self) {
        self.board.lock().unwrap().lines[self.pin as usize].taken = false;
    }
}

impl Pin {
    pub fn pin(&self) -> u8 {
        self.pin
    }

    pub fn mode(&self) -> Mode {
        self.board.lock().unwrap().lines[self.pin as usize].mode
    }

    pub fn read(&self) -> Level {
        let mut b = self.board.lock().unwrap();
        b.log.push(Event::Read(self.pin));
        Level::from(b.level(self.pin))
    }

    fn set_mode(&mut self, mode: Mode) {
        let mut b = self.board.lock().unwrap();
        b.lines[self.pin as usize].mode = mode;
        b.log.push(Event::Mode(self.pin, mode));
    }

    fn set_bias(&mut self, bias: Bias) {
        let mut b = self.board.lock().unwrap();
        b.lines[self.pin as usize].bias = bias;
        b.log.push(Event::Bias(self.pin, bias));
    }

    fn set_level(&mut self, v: bool) {
        let mut b = self.board.lock().unwrap();
        b.lines[self.pin as usize].latch = v;
        b.log.push(Event::Write(self.pin, v));
    }

    pub fn into_input(self) -> InputPin {
        InputPin(Configured::new(self, Mode::Input, Bias::Off))
    }

    pub fn into_input_pulldown(self) -> InputPin {
        InputPin(Configured::new(self, Mode::Input, Bias::PullDown))
    }

    pub fn into_input_pullup(self) -> InputPin {
        InputPin(Configured::new(self, Mode::Input, Bias::PullUp))
    }

    pub fn into_output(self) -> OutputPin {
        OutputPin(Configured::new(self, Mode::Output, Bias::Off))
    }

    pub fn into_output_low(mut self) -> OutputPin {
        self.set_level(false);
        self.into_output()
    }

    pub fn into_output_high(mut self) -> OutputPin {
        self.set_level(true);
        self.into_output()
    }
}

#[derive(Debug)]
struct Configured {
    pin: Pin,
    prev_mode: Option<Mode>,
    bias: Bias,
    reset_on_drop: bool,
}

impl Configured {
    fn new(mut pin: Pin, mode: Mode, bias: Bias) -> Self {
        let prev = pin.mode();
        let prev_mode = if prev == mode {
            None
        } else {
            pin.set_mode(mode);
            Some(prev)
        };
        if mode != Mode::Output || bias != Bias::Off {
            pin.set_bias(bias);
        }
        Configured { pin, prev_mode, bias, reset_on_drop: true }
    }
}

impl Drop for Configured {
    fn drop(&mut self) {
        if !self.reset_on_drop {
            return;
        }
        if let Some(m) = self.prev_mode {
            self.pin.set_mode(m);
        }
        if self.bias != Bias::Off {
            self.pin.set_bias(Bias::Off);
        }
    }
}

macro_rules! common {
    ($t:ident) => {
        impl $t {
            pub fn pin(&self) -> u8 {
                self.0.pin.pin
            }

            pub fn reset_on_drop(&self) -> bool {
                self.0.reset_on_drop
            }

            pub fn set_reset_on_drop(&mut self, v: bool) {
                self.0.reset_on_drop = v;
            }
        }
    };
}

#[derive(Debug)]
pub struct InputPin(Configured);
common!(InputPin);

impl InputPin {
    pub fn read(&self) -> Level {
        self.0.pin.read()
    }

    pub fn is_low(&self) -> bool {
        self.read() == Level::Low
    }

    pub fn is_high(&self) -> bool {
        self.read() == Level::High
    }
}

#[derive(Debug)]
pub struct OutputPin(Configured);
common!(OutputPin);

impl OutputPin {
    pub fn is_set_low(&self) -> bool {
        self.0.pin.read() == Level::Low
    }

    pub fn is_set_high(&self) -> bool {
        self.0.pin.read() == Level::High
    }

    pub fn write(&mut self, level: Level) {
        self.0.pin.set_level(level == Level::High)
    }

    pub fn set_low(&mut self) {
        self.write(Level::Low)
    }

    pub fn set_high(&mut self) {
        self.write(Level::High)
    }

    pub fn toggle(&mut self) {
        let v = self.is_set_low();
        self.write(Level::from(v))
    }
}
