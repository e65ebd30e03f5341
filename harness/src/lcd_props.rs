//! Properties of the driver of the ST7735S LCD, on an emulation of its bus, its pins and its memory.

use crate::engine::*;
use crate::gfx_props::{FONTS, Op, console_ops, follow};
use async_trait::async_trait;
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::Fonts;
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The buttons and the keys that they stand for, in the order of the board.
const BUTTONS: [(u8, Key); 8] = [
    (6, Key::ArrowUp),
    (19, Key::ArrowDown),
    (5, Key::ArrowLeft),
    (26, Key::ArrowRight),
    (13, Key::NewLine),
    (21, Key::Char('1')),
    (20, Key::Char('2')),
    (16, Key::Char('3')),
];

const CS: u8 = 8;
const RST: u8 = 27;
const DC: u8 = 25;
const BL: u8 = 24;

/// The panel shows this part of its memory.
const LEFT: usize = 1;
const TOP: usize = 2;
const SIDE: usize = 128;

/// The LCD as seen from its connector.
#[derive(Default)]
struct Panel {
    modes: [Option<PinMode>; 32],
    level: [bool; 32],
    /// Buttons that are pressed.
    pressed: [bool; 32],
    /// Keys for the presses that the driver could observe.
    seen: Vec<Key>,
    was_reset: bool,
    awake: bool,
    on: bool,
    madctl: u8,
    colmod: u8,
    cmd: u8,
    args: Vec<u8>,
    cols: (usize, usize),
    rows: (usize, usize),
    at: (usize, usize),
    half: Option<u8>,
    /// Pixels received since the last command to write to memory.
    count: usize,
    ram: Vec<u16>,
    bad: Vec<String>,
    /// Maximum length of a transfer and of the part of it that is accepted.
    max: usize,
    accept: usize,
    /// Number of writes until one fails.
    fail_in: Option<usize>,
}

impl Panel {
    fn bad(&mut self, what: String) {
        if self.bad.len() < 5 {
            self.bad.push(what);
        }
    }

    fn command(&mut self, c: u8) {
        self.window_done();
        self.cmd = c;
        self.args.clear();
        self.half = None;
        match c {
            0x11 => self.awake = true,
            0x10 => self.awake = false,
            0x29 => self.on = true,
            0x28 => self.on = false,
            0x2c => {
                self.at = (self.cols.0, self.rows.0);
                self.count = 0;
            }
            _ => (),
        }
    }

    /// Checks that the last write to memory covered all of its window.
    fn window_done(&mut self) {
        if self.cmd == 0x2c {
            let want = (self.cols.1 + 1 - self.cols.0) * (self.rows.1 + 1 - self.rows.0);
            if self.count != want || self.half.is_some() {
                self.bad(format!("{} pixels written to a window of {}", self.count, want));
            }
            self.cmd = 0;
        }
    }

    fn data(&mut self, b: u8) {
        self.args.push(b);
        match self.cmd {
            0x2a | 0x2b if self.args.len() == 4 => {
                let r = (
                    self.args[0] as usize * 256 + self.args[1] as usize,
                    self.args[2] as usize * 256 + self.args[3] as usize,
                );
                let first = if self.cmd == 0x2a { LEFT } else { TOP };
                if r.0 > r.1 || r.0 < first || r.1 >= first + SIDE {
                    self.bad(format!("window {:?} of command {:x} is out of range", r, self.cmd));
                    return;
                }
                if self.cmd == 0x2a { self.cols = r } else { self.rows = r }
            }
            0x2c => {
                let Some(h) = self.half.take() else {
                    self.half = Some(b);
                    return;
                };
                self.count += 1;
                let (x, y) = self.at;
                if y > self.rows.1 {
                    return;
                }
                self.ram[(y - TOP) * SIDE + x - LEFT] = (h as u16) << 8 | b as u16;
                self.at = if x == self.cols.1 { (self.cols.0, y + 1) } else { (x + 1, y) };
            }
            0x36 if self.args.len() == 1 => self.madctl = b,
            0x3a if self.args.len() == 1 => self.colmod = b,
            _ => (),
        }
    }
}

#[derive(Clone)]
struct Board(Arc<Mutex<Panel>>);

impl Pins for Board {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        self.0.lock().unwrap().modes[pin.0 as usize] = Some(mode);
        Ok(())
    }
    fn clear(&mut self, _pin: Pin) -> io::Result<()> {
        Ok(())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        let mut p = self.0.lock().unwrap();
        let mode = p.modes[pin.0 as usize];
        if mode != Some(PinMode::InPullUp) {
            p.bad(format!("read of pin {} in mode {:?}", pin.0, mode));
        }
        let down = p.pressed[pin.0 as usize];
        if down {
            match BUTTONS.iter().find(|b| b.0 == pin.0) {
                Some((_, k)) => p.seen.push(*k),
                None => p.bad(format!("read of pin {}", pin.0)),
            }
        }
        Ok(!down)
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        let mut p = self.0.lock().unwrap();
        let i = pin.0 as usize;
        let mode = p.modes[i];
        if mode != Some(PinMode::Out) {
            p.bad(format!("write to pin {} in mode {:?}", pin.0, mode));
        }
        if pin.0 == RST && p.level[i] && !v {
            let (modes, level) = (p.modes, p.level);
            let old = std::mem::take(&mut *p);
            *p = Panel {
                modes,
                level,
                was_reset: true,
                ram: vec![0x5a5a; SIDE * SIDE],
                max: old.max,
                accept: old.accept,
                bad: old.bad,
                ..Panel::default()
            };
        }
        p.level[i] = v;
        Ok(())
    }
}

struct Bus(Arc<Mutex<Panel>>);

impl io::Write for Bus {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut p = self.0.lock().unwrap();
        if let Some(n) = p.fail_in {
            p.fail_in = n.checked_sub(1);
            if n == 0 {
                return Err(io::Error::other("broken wire"));
            }
        }
        if buf.len() > p.max {
            let max = p.max;
            p.bad(format!("transfer of {} bytes with a limit of {}", buf.len(), max));
        }
        if p.level[CS as usize] || !p.level[RST as usize] || !p.was_reset {
            p.bad("transfer to a chip that is not selected or not reset".to_owned());
        }
        let n = buf.len().min(p.accept);
        for b in &buf[..n] {
            if p.level[DC as usize] { p.data(*b) } else { p.command(*b) }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SpiBus for Bus {
    fn max_size(&self) -> usize {
        self.0.lock().unwrap().max
    }
}

/// A keyboard with keys typed in advance.
#[derive(Clone, Default)]
struct Keyboard(Arc<Mutex<VecDeque<Key>>>);

#[async_trait(?Send)]
impl InputOps for Keyboard {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.lock().unwrap().pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        loop {
            if let Some(k) = self.0.lock().unwrap().pop_front() {
                return Ok(k);
            }
            tokio::time::sleep(Duration::from_millis(7)).await;
        }
    }
}

/// A console on a panel.
struct Device {
    con: Option<Rc<RefCell<dyn Console>>>,
    panel: Arc<Mutex<Panel>>,
    keys: Keyboard,
    rt: tokio::runtime::Runtime,
}

impl Device {
    fn new(spec: &str) -> Result<Device, String> {
        let panel = Arc::new(Mutex::new(Panel { max: 4096, accept: 4096, ..Panel::default() }));
        let keys = Keyboard::default();
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .map_err(|e| e.to_string())?;
        let mut spec = ConsoleSpec::init(spec);
        let (tx, _rx) = async_channel::unbounded();
        let (bus, kb, params) = (panel.clone(), keys.clone(), Arc::new(Mutex::new(vec![])));
        let params2 = params.clone();
        let new_spi = move |b: u8, s: u8, hz: u32, mode: SpiMode| {
            params2.lock().unwrap().push((b, s, hz, mode));
            Ok(Bus(bus.clone()))
        };
        let con = {
            let _guard = rt.enter();
            let f = St7735sConsoleFactory::new(
                Board(panel.clone()),
                new_spi,
                move |_| Ok(kb),
                &mut spec,
                &Fonts::all(),
                tx,
            )
            .map_err(|e| e.to_string())?;
            spec.finish().map_err(|e| e.to_string())?;
            Box::new(f).build().map_err(|e| e.to_string())?
        };
        if *params.lock().unwrap() != [(0, 0, 9000000, SpiMode::Mode0)] {
            return Err("bus opened with other parameters".to_owned());
        }
        let p = panel.lock().unwrap();
        if (p.awake, p.on, p.madctl, p.colmod, p.level[BL as usize]) != (true, true, 0x68, 5, true) {
            return Err(format!(
                "after its initialization, the panel is awake {}, on {}, in mode {:x}, {:x} and lit {}",
                p.awake, p.on, p.madctl, p.colmod, p.level[BL as usize]
            ));
        }
        drop(p);
        Ok(Device { con: Some(con), panel, keys, rt })
    }

    fn look(&self) -> Result<Vec<RGB>, String> {
        let mut p = self.panel.lock().unwrap();
        p.window_done();
        if let Some(b) = p.bad.first() {
            return Err(b.clone());
        }
        if !p.awake || !p.on || !p.level[BL as usize] {
            return Err("the panel is off".to_owned());
        }
        Ok(p.ram.iter().map(|v| expand(*v)).collect())
    }
}

fn expand(v: u16) -> RGB {
    ((v >> 8) as u8 & 0xf8, (v >> 3) as u8 & 0xfc, (v << 3) as u8)
}

/// The nearest color that the panel has, by truncation.
fn quant(c: RGB) -> RGB {
    (c.0 & 0xf8, c.1 & 0xfc, c.2 & 0xf8)
}

/// Configurations of the console; there are few because each needs most of a second to start.
const SETUPS: [(usize, Option<u8>, Option<u8>); 5] =
    [(0, None, None), (0, Some(2), Some(88)), (1, None, Some(255)), (2, Some(200), None), (0, Some(241), Some(15))];

thread_local! {
    static POOL: RefCell<[Option<Device>; 5]> = const { RefCell::new([None, None, None, None, None]) };
}

fn setup_spec(i: usize) -> String {
    let (f, fg, bg) = SETUPS[i];
    let mut t = "st7735s".to_owned();
    let mut sep = ":";
    if f > 0 {
        t += &format!("{}font={}", sep, FONTS[f].name);
        sep = ",";
    }
    for (k, c) in [("bg_color", bg), ("fg_color", fg)] {
        if let Some(c) = c {
            t += &format!("{}{}={}", sep, k, c);
            sep = ",";
        }
    }
    t
}

fn lcd(s: &mut Src, case: &mut Case) -> CaseResult {
    if s.chance(1, 400) {
        return bad_spec(s, case);
    }
    let i = s.weighted(&[6, 2, 2, 2, 2]);
    let (f, fg, bg) = SETUPS[i];
    let font = FONTS[f];
    let side = SIDE as i64;
    let (cols, rows) = (side / font.glyph_size.width as i64, side / font.glyph_size.height as i64);
    let buttons = s.chance(1, 4);
    let ops = if buttons { vec![] } else { console_ops(s, (side, side), (cols, rows)) };
    let max = *s.pick(&[4096, 4096, 64, 7, 1, 33000]);
    let accept = if s.chance(1, 3) { s.range(1, max as i64) as usize } else { max };
    let fail_in = if ops.len() > 3 && s.chance(1, 300) { Some(s.below(60) as usize) } else { None };
    let end = !buttons && s.chance(1, 500);
    let spec = setup_spec(i);
    case.set_text(format!(
        "--console={} with transfers of up to {} bytes accepted by {}, failure at {:?}\n",
        spec, max, accept, fail_in
    ));
    let mut dev = match POOL.with(|p| p.borrow_mut()[i].take()) {
        Some(d) => d,
        None => Device::new(&spec)?,
    };
    {
        let mut p = dev.panel.lock().unwrap();
        (p.max, p.accept) = (max, accept);
        p.seen.clear();
    }
    dev.keys.0.lock().unwrap().clear();
    let con = dev.con.clone().unwrap();
    if buttons {
        keys(s, case, &mut dev, &con)?;
    } else {
        if let Some(n) = fail_in {
            case.label("broken wire");
            broken(&dev, &con, &ops, n)?;
            return Ok(());
        }
        follow(case, font, (side, side), (fg, bg), &ops, &mut *con.borrow_mut(), &|| dev.look(), quant)?;
        case.nontrivial = ops.len() >= 5;
    }
    if end {
        // The panel is left black and unlit.
        case.label("console closed");
        drop(con);
        let panel = dev.panel.clone();
        dev.con = None;
        let mut p = panel.lock().unwrap();
        p.window_done();
        if p.level[BL as usize] || p.ram.iter().any(|v| *v != 0) || !p.bad.is_empty() {
            return Err(format!("the panel is not cleared when the console ends: {:?}", p.bad));
        }
        return Ok(());
    }
    // Prepare for the next case.
    let mut c = con.borrow_mut();
    let _ = c.leave_alt();
    let e = |e: io::Error| e.to_string();
    c.set_sync(true).map_err(e)?;
    c.set_color(None, None).map_err(e)?;
    c.hide_cursor().map_err(e)?;
    c.show_cursor().map_err(e)?;
    c.clear(ClearType::All).map_err(e)?;
    drop(c);
    drop(con);
    POOL.with(|p| p.borrow_mut()[i] = Some(dev));
    Ok(())
}

/// A transfer that fails makes the operation that needs it fail.
fn broken(dev: &Device, con: &Rc<RefCell<dyn Console>>, ops: &[Op], n: usize) -> CaseResult {
    dev.panel.lock().unwrap().fail_in = Some(n);
    let mut con = con.borrow_mut();
    let mut errors = 0;
    for op in ops {
        let before = dev.panel.lock().unwrap().fail_in.is_some();
        let r = match op {
            Op::Write(t) => con.write(t),
            Op::Print(t) => con.print(t),
            Op::Clear(how) => con.clear(how.clone()),
            Op::Pixel(x, y) => con.draw_pixel(PixelsXY::new(*x, *y)),
            Op::Locate(x, y) => con.locate(CharsXY::new(*x, *y)),
            _ => Ok(()),
        };
        let failed = before && dev.panel.lock().unwrap().fail_in.is_none();
        errors += failed as u32;
        if failed != r.is_err() {
            return Err(format!("{:?} with failure {} returns {:?}", op, failed, r));
        }
        if failed {
            break;
        }
    }
    dev.panel.lock().unwrap().fail_in = None;
    let _ = errors;
    Ok(())
}

#[derive(Clone, Debug)]
enum KeyOp {
    Down(usize),
    Up(usize),
    Type(Key),
    Wait(u64),
    Poll,
    Read,
}

fn keys(s: &mut Src, case: &mut Case, dev: &mut Device, con: &Rc<RefCell<dyn Console>>) -> CaseResult {
    let n = s.range(3, 30);
    let ops: Vec<KeyOp> = (0..n)
        .map(|_| match s.weighted(&[3, 3, 3, 4, 3, 3]) {
            0 => KeyOp::Down(s.idx(8)),
            1 => KeyOp::Up(s.idx(8)),
            2 => KeyOp::Type(*s.pick(&[Key::Char('a'), Key::Char('é'), Key::Escape, Key::Tab, Key::PageUp])),
            3 => KeyOp::Wait(*s.pick(&[1, 20, 60, 130])),
            4 => KeyOp::Poll,
            _ => KeyOp::Read,
        })
        .collect();
    case.text += &ops.iter().map(|o| format!("{:?}\n", o)).collect::<String>();
    let (mut got, mut typed) = (vec![], vec![]);
    let panel = dev.panel.clone();
    let keyboard = dev.keys.clone();
    let mut reads = 0;
    let e: Result<(), String> = dev.rt.block_on(async {
        let mut con = con.borrow_mut();
        // Discard what was pressed before.
        tokio::time::sleep(Duration::from_millis(60)).await;
        while con.poll_key().await.map_err(|e| e.to_string())?.is_some() {}
        panel.lock().unwrap().seen.clear();
        for op in &ops {
            match op {
                KeyOp::Down(b) => panel.lock().unwrap().pressed[BUTTONS[*b].0 as usize] = true,
                KeyOp::Up(b) => panel.lock().unwrap().pressed[BUTTONS[*b].0 as usize] = false,
                KeyOp::Type(k) => {
                    typed.push(*k);
                    keyboard.0.lock().unwrap().push_back(*k);
                }
                KeyOp::Wait(ms) => {
                    let before = panel.lock().unwrap().seen.len();
                    tokio::time::sleep(Duration::from_millis(*ms)).await;
                    let p = panel.lock().unwrap();
                    if *ms > 52 && p.pressed.contains(&true) && p.seen.len() == before {
                        return Err(format!("buttons not scanned in {} ms", ms));
                    }
                }
                KeyOp::Poll => {
                    let k = con.poll_key().await.map_err(|e| e.to_string())?;
                    // Nothing else ran, so the keys pending are those seen.
                    let pending = panel.lock().unwrap().seen.len() + typed.len() - got.len();
                    if k.is_none() && pending > 0 {
                        return Err(format!("no key polled with {} pending", pending));
                    }
                    got.extend(k);
                }
                KeyOp::Read => {
                    let p = panel.lock().unwrap();
                    if p.seen.len() + typed.len() > got.len() || p.pressed.contains(&true) {
                        drop(p);
                        let k = tokio::time::timeout(Duration::from_millis(1000), con.read_key()).await;
                        reads += 1;
                        match k {
                            Ok(k) => got.push(k.map_err(|e| e.to_string())?),
                            Err(_) => return Err("no key is read".to_owned()),
                        }
                    }
                }
            }
        }
        for b in panel.lock().unwrap().pressed.iter_mut() {
            *b = false;
        }
        tokio::time::sleep(Duration::from_millis(60)).await;
        while let Some(k) = con.poll_key().await.map_err(|e| e.to_string())? {
            got.push(k);
        }
        Ok(())
    });
    e?;
    let p = dev.panel.lock().unwrap();
    if let Some(b) = p.bad.first() {
        return Err(b.clone());
    }
    let board: Vec<Key> = got.iter().copied().filter(|k| BUTTONS.iter().any(|b| b.1 == *k)).collect();
    let kb: Vec<Key> = got.iter().copied().filter(|k| !BUTTONS.iter().any(|b| b.1 == *k)).collect();
    if board != p.seen {
        return Err(format!("buttons delivered {:?} instead of {:?}", board, p.seen));
    }
    if kb != typed {
        return Err(format!("keyboard delivered {:?} instead of {:?}", kb, typed));
    }
    case.label("buttons");
    case.nontrivial = !board.is_empty() && reads > 0;
    Ok(())
}

/// Specifications that must be rejected.
fn bad_spec(s: &mut Src, case: &mut Case) -> CaseResult {
    let (spec, want) = match s.range(0, 4) {
        0 => ("st7735s:fg_color=300".to_owned(), "Invalid console flag fg_color: number too large to fit in target type"),
        1 => ("st7735s:bg_color=x".to_owned(), "Invalid console flag bg_color: invalid digit found in string"),
        2 => ("st7735s:font=7x9".to_owned(), "font"),
        3 => ("st7735s:bg_color=1,wide".to_owned(), "Console driver st7735s does not recognize flags: wide"),
        _ => ("st7735s:resolution=10x10,fg_color=1".to_owned(), "Console driver st7735s does not recognize flags: resolution"),
    };
    case.set_text(format!("--console={}\n", spec));
    match Device::new(&spec) {
        Ok(_) => Err("accepted".to_owned()),
        Err(e) if e.contains(want) => Ok(()),
        Err(e) => Err(format!("fails with {:?}", e)),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U07",
        rule: "at least 5 operations on the console, or keys read of which some come from buttons",
        quick: 20_000,
        thorough: 600_000,
        run: lcd,
        assumptions: &[
            "the panel shows the 128x128 pixels of its memory from column 1 and row 2 in the orientation that the driver selects",
            "what is drawn under a visible cursor is not specified until overwritten",
        ],
    }]
}
