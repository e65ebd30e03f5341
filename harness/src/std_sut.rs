//! Runs programs on a full `Machine` (standard library included) with observable fakes.

use crate::sut::{Log, upcalls};
use async_channel::{Receiver, Sender};
use async_trait::async_trait;
use endbasic_std::console::*;
use endbasic_std::datetime::DateTime;
use endbasic_std::sound::Tone;
use endbasic_std::{Machine, MachineBuilder, Signal};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io;
use std::rc::Rc;
use std::time::Duration;

/// A console that records what is asked of it.
pub struct Con {
    pub keys: VecDeque<Key>,
    pub ev: Vec<String>,
    pub size: CharsXY,
    pub pixels: Option<SizeInPixels>,
    pub glyph: Option<SizeInPixels>,
    pub interactive: bool,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub sync: bool,
    pub peek: HashMap<(i16, i16), u8>,
    /// Sends a break when a key press is consumed.
    pub signals: Option<Sender<Signal>>,
    /// If set, operations fail once this many more of them are done.
    pub fail_in: Option<u64>,
    /// What to do when running out of keys: EOF (false) or fail (true).
    pub keys_left_is_error: bool,
    /// Records the keys that are read.
    pub trace_reads: bool,
    /// Colors to restore when leaving the alternate screen.
    pub alt: Option<(Option<u8>, Option<u8>)>,
}

impl Con {
    pub fn new() -> Rc<RefCell<Con>> {
        Rc::new(RefCell::new(Con {
            keys: VecDeque::new(),
            ev: vec![],
            size: CharsXY::new(80, 25),
            pixels: None,
            glyph: None,
            interactive: false,
            fg: None,
            bg: None,
            sync: true,
            peek: HashMap::new(),
            signals: None,
            fail_in: None,
            keys_left_is_error: false,
            trace_reads: false,
            alt: None,
        }))
    }

    fn push(&mut self, s: String) -> io::Result<()> {
        if let Some(n) = self.fail_in {
            if n == 0 {
                return Err(io::Error::other("Injected console failure"));
            }
            self.fail_in = Some(n - 1);
        }
        self.ev.push(s);
        Ok(())
    }

    pub fn take(&mut self) -> Vec<String> {
        std::mem::take(&mut self.ev)
    }
}

fn p(xy: PixelsXY) -> String {
    format!("{},{}", xy.x, xy.y)
}

fn ps(points: &[PixelsXY]) -> String {
    points.iter().map(|q| p(*q)).collect::<Vec<_>>().join(" ")
}

#[async_trait(?Send)]
impl Console for Con {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        self.push(format!("clear {:?}", how))
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (self.fg, self.bg)
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.push(format!("color {:?} {:?}", fg, bg))?;
        self.fg = fg;
        self.bg = bg;
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        if self.alt.is_none() {
            self.alt = Some((self.fg, self.bg));
        }
        self.push("enter_alt".to_owned())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.push("hide_cursor".to_owned())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        if let Some((fg, bg)) = self.alt.take() {
            (self.fg, self.bg) = (fg, bg);
        }
        self.push("leave_alt".to_owned())
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        self.push(format!("locate {},{}", pos.x, pos.y))
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        self.push(format!("move {}", off))
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.push(format!("print {}", text))
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        if self.trace_reads {
            self.ev.push("read".to_owned());
        }
        match self.keys.pop_front() {
            Some(k) => {
                if k == Key::Interrupt {
                    if let Some(s) = &self.signals {
                        let _ = s.try_send(Signal::Break);
                    }
                }
                Ok(k)
            }
            None if self.keys_left_is_error => Err(io::Error::other("Out of keys")),
            None => Ok(Key::EofOrDelete),
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.push("show_cursor".to_owned())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(self.size)
    }
    fn size_pixels(&self) -> io::Result<SizeInPixels> {
        self.pixels.ok_or_else(|| io::Error::other("No graphics"))
    }
    fn glyph_size(&self) -> io::Result<SizeInPixels> {
        self.glyph.ok_or_else(|| io::Error::other("No graphics"))
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        self.push(format!("write {}", text))
    }
    fn bucket_fill(&mut self, xy: PixelsXY) -> io::Result<()> {
        self.push(format!("fill {}", p(xy)))
    }
    fn draw_circle(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.push(format!("circle {} {}", p(c), r))
    }
    fn draw_circle_filled(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.push(format!("circlef {} {}", p(c), r))
    }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(format!("line {} {}", p(a), p(b)))
    }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> {
        self.push(format!("pixel {}", p(a)))
    }
    fn draw_poly(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        self.push(format!("poly {}", ps(points)))
    }
    fn draw_poly_filled(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        self.push(format!("polyf {}", ps(points)))
    }
    fn draw_rect(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(format!("rect {} {}", p(a), p(b)))
    }
    fn draw_rect_filled(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(format!("rectf {} {}", p(a), p(b)))
    }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.push(format!("tri {} {} {}", p(a), p(b), p(c)))
    }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.push(format!("trif {} {} {}", p(a), p(b), p(c)))
    }
    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        Ok(self.peek.get(&(xy.x, xy.y)).copied())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        self.push("sync_now".to_owned())
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        self.push(format!("sync {}", enabled))?;
        Ok(std::mem::replace(&mut self.sync, enabled))
    }
    async fn play_tone(&mut self, tone: Tone) -> io::Result<()> {
        self.push(format!("tone {} {:?}", tone.frequency_hz, tone.duration))
    }
}

/// A clock that advances as it is slept on.
#[derive(Default)]
pub struct Clock {
    pub now: RefCell<Duration>,
    pub sleeps: RefCell<Vec<Duration>>,
    /// Sends a break when asked to sleep for this long.
    pub break_on: RefCell<Option<(Duration, Sender<Signal>)>>,
}

#[async_trait(?Send)]
impl DateTime for Clock {
    fn monotonic(&self) -> Duration {
        *self.now.borrow()
    }
    async fn sleep(&self, d: Duration) -> Result<(), String> {
        self.sleeps.borrow_mut().push(d);
        if let Some((when, tx)) = &*self.break_on.borrow() {
            if *when == d {
                let _ = tx.try_send(Signal::Break);
            }
        }
        let mut n = self.now.borrow_mut();
        *n = n.saturating_add(d);
        Ok(())
    }
}

pub struct StdSut {
    pub machine: Machine,
    pub con: Rc<RefCell<Con>>,
    pub clock: Rc<Clock>,
    pub log: Rc<RefCell<Log>>,
    pub signals: (Sender<Signal>, Receiver<Signal>),
}

/// A builder with the fakes and the observation callables registered.
pub fn builder() -> (MachineBuilder, Rc<RefCell<Con>>, Rc<Clock>, Rc<RefCell<Log>>, (Sender<Signal>, Receiver<Signal>)) {
    let con = Con::new();
    let clock: Rc<Clock> = Rc::default();
    let log: Rc<RefCell<Log>> = Rc::default();
    let signals = async_channel::unbounded();
    let mut b = MachineBuilder::default()
        .with_console(con.clone())
        .with_datetime(clock.clone())
        .with_signals_chan(signals.clone());
    for (_, c) in upcalls(&log, false) {
        b.add_callable(c);
    }
    (b, con, clock, log, signals)
}

impl StdSut {
    pub fn scripting() -> Self {
        let (b, con, clock, log, signals) = builder();
        StdSut { machine: b.build(), con, clock, log, signals }
    }

    /// Compiles and runs `text`.
    pub fn run(&mut self, text: &str) -> Result<Option<i32>, String> {
        self.machine.compile(&mut text.as_bytes()).map_err(|e| format!("compile: {}", e))?;
        block_on(self.machine.exec()).map_err(|e| e.to_string())
    }

    pub fn take_out(&self) -> Vec<String> {
        std::mem::take(&mut self.log.borrow_mut().out)
    }

    /// Clears the machine and everything that was recorded.
    pub fn reset(&mut self) {
        self.machine.clear();
        self.con.borrow_mut().take();
        self.clock.sleeps.borrow_mut().clear();
        *self.clock.now.borrow_mut() = Duration::ZERO;
        self.log.borrow_mut().out.clear();
        self.log.borrow_mut().ticks = 0;
    }
}

thread_local! {
    static SHARED: RefCell<Option<StdSut>> = const { RefCell::new(None) };
}

/// Runs `f` on a scripting machine kept by this thread, cleared before use.  Dropped on panics.
pub fn with_shared<T>(f: impl FnOnce(&mut StdSut) -> T) -> T {
    let mut sut = SHARED.with(|s| s.borrow_mut().take()).unwrap_or_else(StdSut::scripting);
    sut.reset();
    let r = f(&mut sut);
    SHARED.with(|s| *s.borrow_mut() = Some(sut));
    r
}
