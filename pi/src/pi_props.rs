//! Properties of the Raspberry Pi support, which runs unmodified on a simulated board.

use crate::engine::*;
use async_trait::async_trait;
use endbasic_rpi::{RppalPins, spi_bus_open};
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{CharsXY, ClearType, Console, ConsoleFactory, ConsoleSpec, Key, PixelsXY};
use endbasic_std::gfx::lcd::fonts::Fonts;
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use endbasic_std::{Machine, MachineBuilder};
use futures_lite::future::block_on;
use rppal::sim::{self, Bias, Board, Event, Failure, LINES, Line, Mode};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_uint};
use std::fmt::Write as _;
use std::io::{self, Write};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Makes the file with the maximum size of SPI transfers be the one of the simulated board.
///
/// Takes the place of the function of the C library.
#[unsafe(no_mangle)]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        if CStr::from_ptr(path).to_bytes() == b"/sys/module/spidev/parameters/bufsiz" {
            let content = sim::try_board().and_then(|b| b.lock().unwrap().bufsiz.clone());
            let Some(content) = content else {
                *libc::__errno_location() = libc::ENOENT;
                return -1;
            };
            let fd = libc::memfd_create(c"bufsiz".as_ptr(), libc::MFD_CLOEXEC);
            if fd >= 0 {
                libc::write(fd, content.as_ptr().cast(), content.len());
                libc::lseek(fd, 0, libc::SEEK_SET);
            }
            return fd;
        }
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
    }
}

fn new_board(s: &mut Src) -> Arc<Mutex<Board>> {
    let lines = (0..LINES)
        .map(|i| Line {
            mode: match i {
                _ if !s.chance(1, 3) => Mode::Input,
                _ => *s.pick(&[Mode::Alt0, Mode::Alt3, Mode::Output, Mode::Null]),
            },
            bias: Bias::Off,
            latch: s.chance(1, 2),
            outside: *s.pick(&[None, None, Some(false), Some(true)]),
            taken: false,
        })
        .collect();
    Arc::new(Mutex::new(Board {
        lines,
        log: vec![],
        chip_failure: None,
        bus_failure: None,
        write_failure: None,
        accept: 1 << 20,
        bufsiz: Some(b"4096\n".to_vec()),
    }))
}

/// Keeps a board installed in the thread.
struct Installed(Arc<Mutex<Board>>);

impl Installed {
    fn new(b: Arc<Mutex<Board>>) -> Self {
        sim::install(Some(b.clone()));
        Self(b)
    }
}

impl Drop for Installed {
    fn drop(&mut self) {
        sim::install(None);
    }
}

// --- Pins.

/// What the lines of the board should be.
struct Model {
    lines: Vec<Line>,
    /// Pins that the program set up, with the mode they had.
    ours: BTreeMap<u8, Mode>,
    opened: bool,
    writes: Vec<Event>,
}

impl Model {
    fn clear(&mut self, pin: u8) {
        if let Some(mode) = self.ours.remove(&pin) {
            let l = &mut self.lines[pin as usize];
            l.mode = mode;
            l.bias = Bias::Off;
            l.taken = false;
        }
    }

    fn clear_all(&mut self) {
        for pin in self.ours.keys().copied().collect::<Vec<u8>>() {
            self.clear(pin);
        }
    }

    /// Returns what the error must tell, if there is one.
    fn setup(&mut self, pin: u8, mode: Mode, bias: Bias, failure: &Option<Failure>) -> Result<(), String> {
        self.clear(pin);
        if !self.opened {
            match failure {
                Some(Failure::UnknownModel) => return Err("Raspberry Pi".to_owned()),
                Some(Failure::PermissionDenied) => return Err("/dev/gpiomem".to_owned()),
                Some(Failure::Io) => return Err("chip is broken".to_owned()),
                None => self.opened = true,
            }
        }
        match self.lines.get_mut(pin as usize) {
            Some(l) if !l.taken => {
                self.ours.insert(pin, l.mode);
                (l.mode, l.bias, l.taken) = (mode, bias, true);
                Ok(())
            }
            _ => Err(pin.to_string()),
        }
    }

    fn read(&self, pin: u8) -> Option<bool> {
        let l = self.lines.get(pin as usize)?;
        if !self.ours.contains_key(&pin) || l.mode == Mode::Output {
            return None;
        }
        Some(l.outside.unwrap_or(l.bias == Bias::PullUp))
    }

    fn write(&mut self, pin: u8, v: bool) -> Option<()> {
        let l = self.lines.get_mut(pin as usize)?;
        if !self.ours.contains_key(&pin) || l.mode != Mode::Output {
            return None;
        }
        l.latch = v;
        self.writes.push(Event::Write(pin, v));
        Some(())
    }
}

fn compare(board: &Arc<Mutex<Board>>, m: &Model, text: &str) -> CaseResult {
    let b = board.lock().unwrap();
    for (i, (got, want)) in b.lines.iter().zip(&m.lines).enumerate() {
        if got != want {
            return Err(format!("after {}, pin {} is {:?} instead of {:?}", text, i, got, want));
        }
    }
    let writes: Vec<&Event> = b.log.iter().filter(|e| matches!(e, Event::Write(..))).collect();
    if writes != m.writes.iter().collect::<Vec<_>>() {
        return Err(format!("after {}, the writes are {:?} instead of {:?}", text, writes, m.writes));
    }
    let opened = b.log.iter().filter(|e| **e == Event::Opened).count();
    if (opened > 0) != m.opened {
        return Err(format!("after {}, the chip was opened {} times", text, opened));
    }
    Ok(())
}

const MODES: [(&str, Mode, Bias); 4] = [
    ("in", Mode::Input, Bias::Off),
    ("In-Pull-Down", Mode::Input, Bias::PullDown),
    ("IN-PULL-UP", Mode::Input, Bias::PullUp),
    ("OUT", Mode::Output, Bias::Off),
];

/// Runs a statement and returns the exit code.
fn exec(machine: &mut Machine, text: &str) -> Result<Option<i32>, String> {
    machine.compile(&mut text.as_bytes()).map_err(|e| e.to_string())?;
    block_on(machine.exec()).map_err(|e| e.to_string())
}

fn pins(s: &mut Src, case: &mut Case) -> CaseResult {
    let board = Installed::new(new_board(s));
    let board = &board.0;
    let mut m = Model {
        lines: board.lock().unwrap().lines.clone(),
        ours: BTreeMap::new(),
        opened: false,
        writes: vec![],
    };
    let mut machine =
        MachineBuilder::default().with_gpio_pins(Rc::new(RefCell::new(RppalPins::default()))).build();
    // Pins of another part of the program, such as the console.
    let mut other: Option<RppalPins> = None;
    let few: Vec<u8> = (0..s.range(1, 4)).map(|_| s.below(LINES as u64) as u8).collect();
    let n = s.range(1, 40);
    let mut kinds = [false; 9];
    for _ in 0..n {
        let pin = if s.chance(1, 12) { *s.pick(&[53, 54, 55, 200, 255]) } else { *s.pick(&few) };
        let kind = s.weighted(&[30, 10, 3, 25, 25, 3, 20, 4, 6]);
        kinds[kind] = true;
        let text = match kind {
            0 => format!("GPIO_SETUP {}, ", pin),
            1 => format!("GPIO_CLEAR {}", pin),
            2 => "GPIO_CLEAR".to_owned(),
            3 => format!("IF GPIO_READ({}) THEN\nEND 5\nELSE\nEND 4\nEND IF", pin),
            4 => format!("GPIO_WRITE {}, ", pin),
            5 => "(start over)".to_owned(),
            6 => format!("(level of pin {})", pin),
            7 => "(failure)".to_owned(),
            _ => format!("(pin {} used by others)", pin),
        };
        let mut full = text.clone();
        // What the error must tell, if there is one.
        let want: Result<Option<i32>, String> = match kind {
            0 => {
                let (name, mode, bias) = *s.pick(&MODES);
                let _ = write!(full, "\"{}\"", name);
                let failure = board.lock().unwrap().chip_failure.clone();
                let r = m.setup(pin, mode, bias, &failure);
                if r.is_err() {
                    case.label("set up fails");
                }
                r.map(|()| None)
            }
            1 => {
                m.clear(pin);
                Ok(None)
            }
            2 => {
                m.clear_all();
                Ok(None)
            }
            3 => m.read(pin).map(|v| Some(4 + v as i32)).ok_or("GPIO_SETUP".to_owned()),
            4 => {
                let v = s.chance(1, 2);
                full += if v { "TRUE" } else { "FALSE" };
                m.write(pin, v).map(|()| None).ok_or("GPIO_SETUP".to_owned())
            }
            _ => Ok(None),
        };
        let _ = writeln!(case.text, "{}", full);
        let got = match kind {
            5 => {
                machine.clear();
                m.clear_all();
                Ok(None)
            }
            6 => {
                let v = *s.pick(&[None, Some(false), Some(true)]);
                let _ = writeln!(case.text, "  {:?}", v);
                if (pin as usize) < LINES {
                    m.lines[pin as usize].outside = v;
                    board.lock().unwrap().lines[pin as usize].outside = v;
                }
                Ok(None)
            }
            7 => {
                let f = s
                    .pick(&[None, Some(Failure::UnknownModel), Some(Failure::PermissionDenied), Some(Failure::Io)])
                    .clone();
                let _ = writeln!(case.text, "  {:?}", f);
                board.lock().unwrap().chip_failure = f;
                Ok(None)
            }
            8 => {
                // Only while the chip can be opened.
                let mut b = board.lock().unwrap();
                let failure = b.chip_failure.take();
                let opened = b.log.len();
                drop(b);
                if s.chance(1, 3) {
                    other = None;
                    for (i, l) in board.lock().unwrap().lines.iter().enumerate() {
                        m.lines[i].taken = l.taken;
                        m.lines[i].mode = l.mode;
                        m.lines[i].bias = l.bias;
                    }
                } else if !m.ours.contains_key(&pin) && (pin as usize) < LINES {
                    let o = other.get_or_insert_default();
                    o.setup(Pin(pin), PinMode::InPullUp).map_err(|e| format!("cannot set up pin: {}", e))?;
                    let l = &mut m.lines[pin as usize];
                    (l.mode, l.bias, l.taken) = (Mode::Input, Bias::PullUp, true);
                }
                let mut b = board.lock().unwrap();
                b.log.truncate(opened);
                b.chip_failure = failure;
                Ok(None)
            }
            _ => exec(&mut machine, &full),
        };
        match (&got, &want) {
            (Ok(a), Ok(b)) if a == b => (),
            (Err(a), Err(b)) if a.contains(b) => (),
            _ => return Err(format!("{} results in {:?} instead of {:?}", full, got, want)),
        }
        compare(board, &m, &full)?;
    }
    drop(machine);
    m.clear_all();
    compare(board, &m, "the end")?;
    let text = std::mem::take(&mut case.text);
    case.set_text(text);
    if other.is_some() {
        case.label("pins in use by others");
    }
    case.nontrivial = kinds.iter().filter(|k| **k).count() >= 4;
    Ok(())
}

// --- The SPI bus.

fn bus(s: &mut Src, case: &mut Case) -> CaseResult {
    let board = Installed::new(new_board(s));
    let board = &board.0;
    let size = *s.pick(&[1u64, 2, 7, 64, 4096, 65536, 1 << 40]);
    let (content, valid): (Option<Vec<u8>>, bool) = match s.weighted(&[10, 4, 1, 1, 1, 1]) {
        0 => (Some(format!("{}\n", size).into_bytes()), true),
        1 => (Some(format!("{}", size).into_bytes()), true),
        2 => (None, false),
        3 => (Some(vec![]), false),
        4 => (Some(format!("-{}\n", size).into_bytes()), false),
        _ => (Some(s.pick(&[&b"\xff\n"[..], b"a lot\n", b"12 13\n", b"99999999999999999999999\n"]).to_vec()), false),
    };
    let failure =
        if s.chance(1, 8) { Some(s.pick(&[Failure::UnknownModel, Failure::PermissionDenied, Failure::Io]).clone()) } else { None };
    let (b, slave) = if s.chance(1, 4) { (s.below(3) as u8, s.below(3) as u8) } else { (0, 0) };
    let clock = *s.pick(&[9000000u32, 1, 125000000, u32::MAX, 0]);
    let i = s.idx(4);
    let mode = [SpiMode::Mode0, SpiMode::Mode1, SpiMode::Mode2, SpiMode::Mode3];
    let mode = mode.into_iter().nth(i).unwrap();
    case.set_text(format!(
        "open bus {} slave {} clock {} mode {:?} with limit {:?} and failure {:?}\n",
        b, slave, clock, mode, content, failure
    ));
    {
        let mut board = board.lock().unwrap();
        board.bufsiz = content;
        board.bus_failure = failure.clone();
    }
    let ok = b == 0 && slave == 0 && failure.is_none() && valid;
    let mut bus = match spi_bus_open(b, slave, clock, mode) {
        Ok(b) if ok => b,
        Err(_) if !ok => {
            case.label("bus not opened");
            return Ok(());
        }
        Ok(_) => return Err("the bus opens".to_owned()),
        Err(e) => return Err(format!("the bus does not open: {}", e)),
    };
    let mut want = vec![Event::Spi { bus: 0, slave: 0, clock, mode: i as u8 }];
    if bus.max_size() as u64 != size {
        return Err(format!("the maximum size is {}", bus.max_size()));
    }
    for _ in 0..s.range(0, 8) {
        let data: Vec<u8> = (0..s.range(1, 30)).map(|_| s.below(256) as u8).collect();
        let accept = s.range(1, 40) as usize;
        let fails = s.chance(1, 6);
        {
            let mut board = board.lock().unwrap();
            board.accept = accept;
            board.write_failure = if fails { Some(0) } else { None };
        }
        let n = data.len().min(accept);
        match bus.write(&data) {
            Ok(m) if m == n && !fails => (),
            Err(_) if fails => (),
            r => return Err(format!("writing {:?} returns {:?}", data, r)),
        }
        if !fails {
            want.push(Event::Transfer(data[..n].to_vec()));
        }
        bus.flush().map_err(|e| e.to_string())?;
    }
    if board.lock().unwrap().log != want {
        return Err(format!("{:?} happened instead of {:?}", board.lock().unwrap().log, want));
    }
    case.nontrivial = want.len() > 2;
    Ok(())
}

// --- The console on the LCD.

/// Keyboard at which nobody types.
struct NoKeys;

#[async_trait(?Send)]
impl InputOps for NoKeys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }

    async fn read_key(&mut self) -> io::Result<Key> {
        std::future::pending().await
    }
}

/// Ideal pins and bus.
#[derive(Clone)]
struct Ideal(Arc<Mutex<(Vec<Event>, [Option<PinMode>; 32])>>, usize);

impl Pins for Ideal {
    fn as_any(&self) -> &dyn Any {
        self
    }

    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }

    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        self.0.lock().unwrap().1[pin.0 as usize] = Some(mode);
        Ok(())
    }

    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.0.lock().unwrap().1[pin.0 as usize] = None;
        Ok(())
    }

    fn clear_all(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().1 = [None; 32];
        Ok(())
    }

    fn read(&mut self, _pin: Pin) -> io::Result<bool> {
        Ok(true)
    }

    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        self.0.lock().unwrap().0.push(Event::Write(pin.0, v));
        Ok(())
    }
}

impl io::Write for Ideal {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().0.push(Event::Transfer(buf.to_vec()));
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SpiBus for Ideal {
    fn max_size(&self) -> usize {
        self.1
    }
}

#[derive(Clone, Debug)]
enum Op {
    Print(String),
    Color(Option<u8>, Option<u8>),
    Locate(u16, u16),
    Clear,
    Rect(i16, i16, i16, i16),
    Circle(i16, i16, u16),
}

fn apply(con: &mut dyn Console, op: &Op) -> io::Result<()> {
    match op {
        Op::Print(t) => con.print(t),
        Op::Color(f, b) => con.set_color(*f, *b),
        Op::Locate(x, y) => con.locate(CharsXY::new(*x, *y)),
        Op::Clear => con.clear(ClearType::All),
        Op::Rect(a, b, c, d) => con.draw_rect_filled(PixelsXY::new(*a, *b), PixelsXY::new(*c, *d)),
        Op::Circle(a, b, r) => con.draw_circle(PixelsXY::new(*a, *b), *r),
    }
}

/// Joins the bytes sent with the same levels of the pins.
fn stream(log: &[Event]) -> Vec<Event> {
    let mut out: Vec<Event> = vec![];
    for e in log {
        match (out.last_mut(), e) {
            (Some(Event::Transfer(a)), Event::Transfer(b)) => a.extend(b),
            (_, Event::Transfer(_) | Event::Write(..)) => out.push(e.clone()),
            _ => (),
        }
    }
    out
}

fn lcd(s: &mut Src, case: &mut Case) -> CaseResult {
    let board = Installed::new(new_board(s));
    let board = &board.0;
    let size = *s.pick(&[4096usize, 64, 333, 100000]);
    let accept = *s.pick(&[size, size, (size / 3).max(1)]);
    let failure = if s.chance(1, 10) {
        Some(s.pick(&[Failure::UnknownModel, Failure::PermissionDenied, Failure::Io]).clone())
    } else {
        None
    };
    let chip = s.chance(1, 2);
    // One of the pins may be in use already.
    let taken = if s.chance(1, 12) { Some(*s.pick(&[6u8, 8, 27, 25, 24, 16, 2])) } else { None };
    let coord = |s: &mut Src| s.range(-20, 150) as i16;
    let ops: Vec<Op> = (0..s.range(0, 6))
        .map(|_| match s.below(6) {
            0 => Op::Print("Hello, Pi ".repeat(s.range(1, 5) as usize)),
            1 => Op::Color(Some(s.below(16) as u8), Some(s.below(16) as u8)),
            2 => Op::Locate(s.below(25) as u16, s.below(16) as u16),
            3 => Op::Clear,
            4 => Op::Rect(coord(s), coord(s), coord(s), coord(s)),
            _ => Op::Circle(coord(s), coord(s), s.below(60) as u16),
        })
        .collect();
    let button = s.below(9);
    case.set_text(format!(
        "transfers up to {} accepted by {}, failure of the {} {:?}, pin {:?} in use, button {}\n{:?}\n",
        size,
        accept,
        if chip { "chip" } else { "bus" },
        failure,
        taken,
        button,
        ops
    ));
    {
        let mut b = board.lock().unwrap();
        b.bufsiz = Some(format!("{}\n", size).into_bytes());
        b.accept = accept;
        *(if chip { &mut b.chip_failure } else { &mut b.bus_failure }) = failure.clone();
        b.lines.iter_mut().for_each(|l| l.outside = None);
        if let Some(t) = taken {
            b.lines[t as usize].taken = true;
        }
    }
    let before = board.lock().unwrap().lines.clone();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .map_err(|e| e.to_string())?;
    let (tx, _rx) = async_channel::unbounded();
    let build = |which: bool, ideal: &Ideal| -> io::Result<Rc<RefCell<dyn Console>>> {
        let _guard = rt.enter();
        let mut spec = ConsoleSpec::init("st7735s");
        let keys = |_| Ok(NoKeys);
        if which {
            let f = St7735sConsoleFactory::new(
                RppalPins::default(),
                spi_bus_open,
                keys,
                &mut spec,
                &Fonts::all(),
                tx.clone(),
            )?;
            Box::new(f).build()
        } else {
            let bus = ideal.clone();
            let open = move |_, _, _, _| Ok(bus.clone());
            let f = St7735sConsoleFactory::new(ideal.clone(), open, keys, &mut spec, &Fonts::all(), tx.clone())?;
            Box::new(f).build()
        }
    };
    let ideal = Ideal(Arc::new(Mutex::new((vec![], [None; 32]))), size);
    let reference = build(false, &ideal).map_err(|e| e.to_string())?;
    let works = failure.is_none() && !taken.is_some_and(|t| t != 2);
    let con = match build(true, &ideal) {
        Ok(c) if works => c,
        Err(_) if !works => {
            case.label("console not available");
            let mut after = board.lock().unwrap().lines.clone();
            after.iter_mut().zip(&before).for_each(|(a, b)| a.latch = b.latch);
            if after != before {
                return Err("the failed console leaves pins set up".to_owned());
            }
            return Ok(());
        }
        Ok(_) => return Err("the console starts".to_owned()),
        Err(e) => return Err(format!("the console does not start: {}", e)),
    };
    for (i, mode) in ideal.0.lock().unwrap().1.iter().enumerate() {
        let l = &board.lock().unwrap().lines[i];
        let want = match mode {
            None => (before[i].mode, Bias::Off),
            Some(PinMode::In) => (Mode::Input, Bias::Off),
            Some(PinMode::InPullDown) => (Mode::Input, Bias::PullDown),
            Some(PinMode::InPullUp) => (Mode::Input, Bias::PullUp),
            Some(PinMode::Out) => (Mode::Output, Bias::Off),
        };
        if (l.mode, l.bias) != want {
            return Err(format!("with the console, pin {} is {:?} instead of {:?}", i, l, want));
        }
    }
    for op in &ops {
        let a = apply(&mut *con.borrow_mut(), op).map_err(|e| e.to_string());
        let b = apply(&mut *reference.borrow_mut(), op).map_err(|e| e.to_string());
        if a != b {
            return Err(format!("{:?} results in {:?} instead of {:?}", op, a, b));
        }
        let (a, b) = (stream(&board.lock().unwrap().log), stream(&ideal.0.lock().unwrap().0));
        if a != b {
            return Err(format!("after {:?}, the LCD received something else: {} events instead of {}", op, a.len(), b.len()));
        }
        if let Some(Event::Transfer(t)) =
            board.lock().unwrap().log.iter().find(|e| matches!(e, Event::Transfer(t) if t.len() > size))
        {
            return Err(format!("{} bytes were sent at once", t.len()));
        }
    }
    // Programs cannot use the pins of the console, but can use the others.
    let mut program = RppalPins::default();
    let pin = *s.pick(&[8u8, 25, 24, 19, 3, 4]);
    if program.setup(Pin(pin), PinMode::Out).is_ok() != (pin < 5) {
        return Err(format!("setting up pin {} next to the console", pin));
    }
    const BUTTONS: [(u8, Key); 8] = [
        (6, Key::ArrowUp),
        (19, Key::ArrowDown),
        (5, Key::ArrowLeft),
        (26, Key::ArrowRight),
        (13, Key::NewLine),
        (21, Key::Char('1')),
        (20, Key::Char('2')),
        (16, Key::Char('3')),
    ];
    if let Some((pin, want)) = BUTTONS.get(button as usize) {
        board.lock().unwrap().lines[*pin as usize].outside = Some(false);
        let got = rt.block_on(async {
            tokio::time::timeout(Duration::from_secs(1), async { con.borrow_mut().read_key().await }).await
        });
        match got {
            Ok(Ok(k)) if k == *want => (),
            k => return Err(format!("the button at pin {} gives {:?}", pin, k)),
        }
    }
    drop(program);
    drop(con);
    drop(reference);
    drop(rt);
    let (a, b) = (stream(&board.lock().unwrap().log), stream(&ideal.0.lock().unwrap().0));
    if a != b {
        return Err("the LCD received something else at the end".to_owned());
    }
    let after = board.lock().unwrap().lines.clone();
    for (i, (a, b)) in after.iter().zip(&before).enumerate() {
        if (a.mode, a.bias, a.taken) != (b.mode, b.bias, b.taken) {
            return Err(format!("after the end, pin {} is {:?} instead of {:?}", i, a, b));
        }
    }
    case.nontrivial = ops.len() >= 2;
    Ok(())
}

fn pi(s: &mut Src, case: &mut Case) -> CaseResult {
    match s.weighted(&[150, 48, 1]) {
        0 => {
            case.label("pins");
            pins(s, case)
        }
        1 => {
            case.label("bus");
            bus(s, case)
        }
        _ => {
            case.label("LCD");
            lcd(s, case)
        }
    }
}

pub const REGRESSIONS: &[(&str, &str, fn() -> CaseResult)] = &[];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P01",
        rule: "four kinds of operations on pins, two transfers, or two operations of the console",
        quick: 40_000,
        thorough: 1_000_000,
        run: pi,
        assumptions: &["the board is simulated by a replacement of the rppal library"],
    }]
}
