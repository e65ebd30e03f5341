use crate::sim::{self, Board, Event, Failure};
use std::fmt;
use std::io;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    BitsPerWordNotSupported(u8),
    ClockSpeedNotSupported(u32),
    ModeNotSupported(Mode),
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Error::Io(ref err) => write!(f, "I/O error: {}", err),
            Error::BitsPerWordNotSupported(bits) => write!(f, "Bits per word value not supported: {}", bits),
            Error::ClockSpeedNotSupported(clock) => write!(f, "Clock speed value not supported: {}", clock),
            Error::ModeNotSupported(mode) => write!(f, "Mode value not supported: {:?}", mode),
        }
    }
}

impl std::error::Error for Error {}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::Io(err)
    }
}

pub type Result<T> = std::result::Result<T, Error>;

macro_rules! numbered {
    ($t:ident: $($v:ident = $n:literal),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(u8)]
        pub enum $t {
            $($v = $n),*
        }
    };
}
numbered!(Bus: Spi0 = 0, Spi1 = 1, Spi2 = 2, Spi3 = 3, Spi4 = 4, Spi5 = 5, Spi6 = 6);
numbered!(SlaveSelect: Ss0 = 0, Ss1 = 1, Ss2 = 2, Ss3 = 3, Ss4 = 4, Ss5 = 5, Ss6 = 6, Ss7 = 7);
numbered!(Mode: Mode0 = 0, Mode1 = 1, Mode2 = 2, Mode3 = 3);

pub struct Spi {
    board: Arc<Mutex<Board>>,
}

impl Spi {
    pub fn new(bus: Bus, slave_select: SlaveSelect, clock_speed: u32, mode: Mode) -> Result<Spi> {
        let board = sim::board();
        let mut b = board.lock().unwrap();
        match b.bus_failure {
            Some(Failure::UnknownModel) => return Err(Error::ModeNotSupported(mode)),
            Some(Failure::PermissionDenied) => {
                return Err(Error::Io(io::Error::from(io::ErrorKind::PermissionDenied)))
            }
            Some(Failure::Io) => return Err(Error::ClockSpeedNotSupported(clock_speed)),
            None => (),
        }
        b.log.push(Event::Spi { bus: bus as u8, slave: slave_select as u8, clock: clock_speed, mode: mode as u8 });
        drop(b);
        Ok(Spi { board })
    }

    pub fn write(&mut self, buffer: &[u8]) -> Result<usize> {
        let mut b = self.board.lock().unwrap();
        if let Some(n) = b.write_failure {
            b.write_failure = n.checked_sub(1);
            if n == 0 {
                return Err(Error::Io(io::Error::other("broken wire")));
            }
        }
        let n = buffer.len().min(b.accept);
        b.log.push(Event::Transfer(buffer[..n].to_vec()));
        Ok(n)
    }
}
