//! U05: the text console on a (pseudo) terminal.

use crate::cli_props::{Scratch, binary, quote};
use crate::engine::*;
use crate::term::{Cell, Screen, Term};
use endbasic_std::console::{Console, ConsoleFactory, Key};
use std::cell::RefCell;
use std::fs::File;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---- Terminal emulation

/// The subset of a VT terminal, as xterm behaves, that programs like this one rely on.
pub struct Vt {
    w: usize,
    h: usize,
    cells: Vec<Vec<Cell>>,
    x: usize,
    y: usize,
    /// The last column was written to and the next character wraps.
    pending: bool,
    fg: Option<u8>,
    bg: Option<u8>,
    visible: bool,
    alt: bool,
    saved: Option<(Vec<Vec<Cell>>, usize, usize, bool, Option<u8>, Option<u8>)>,
    pub gone: Vec<String>,
    /// How many times the alternate screen was entered.
    alts: usize,
    raw: Vec<u8>,
    /// Sequences that the emulation does not know.
    pub unknown: Vec<String>,
}

impl Vt {
    pub fn new(w: usize, h: usize) -> Self {
        Vt {
            w,
            h,
            cells: vec![vec![Cell { ch: ' ', fg: None, bg: None }; w]; h],
            x: 0,
            y: 0,
            pending: false,
            fg: None,
            bg: None,
            visible: true,
            alt: false,
            saved: None,
            gone: vec![],
            alts: 0,
            raw: vec![],
            unknown: vec![],
        }
    }

    fn blank(&self) -> Cell {
        Cell { ch: ' ', fg: None, bg: self.bg }
    }

    fn line_feed(&mut self) {
        self.pending = false;
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            let l = self.cells.remove(0);
            self.gone.push(l.iter().map(|c| c.ch).collect());
            self.cells.push(vec![self.blank(); self.w]);
        }
    }

    fn put(&mut self, ch: char) {
        if self.pending {
            self.x = 0;
            self.line_feed();
        }
        self.cells[self.y][self.x] = Cell { ch, fg: self.fg, bg: self.bg };
        if self.x + 1 < self.w {
            self.x += 1;
        } else {
            self.pending = true;
        }
    }

    fn clear_cells(&mut self, from: usize, to: usize) {
        let b = self.blank();
        for i in from..to {
            self.cells[i / self.w][i % self.w] = b;
        }
    }

    pub fn feed(&mut self, data: &[u8]) {
        self.raw.extend(data);
        let raw = std::mem::take(&mut self.raw);
        let mut i = 0;
        while i < raw.len() {
            match self.one(&raw[i..]) {
                Some(n) => i += n,
                None => break,
            }
        }
        self.raw = raw[i..].to_vec();
    }

    /// Processes one character or sequence and returns its length, if complete.
    fn one(&mut self, d: &[u8]) -> Option<usize> {
        match d[0] {
            b'\r' => {
                self.x = 0;
                self.pending = false;
                Some(1)
            }
            b'\n' => {
                self.line_feed();
                Some(1)
            }
            8 => {
                self.x = self.x.saturating_sub(1);
                self.pending = false;
                Some(1)
            }
            7 => Some(1),
            0x1b => self.escape(d),
            b if b < 0x20 || b == 0x7f => {
                self.unknown.push(format!("control {:#x}", b));
                Some(1)
            }
            b => {
                let n = match b {
                    0..=0x7f => 1,
                    0xc0..=0xdf => 2,
                    0xe0..=0xef => 3,
                    _ => 4,
                };
                if d.len() < n {
                    return None;
                }
                match std::str::from_utf8(&d[..n]) {
                    Ok(s) => self.put(s.chars().next().unwrap()),
                    Err(_) => self.unknown.push(format!("bytes {:?}", &d[..n])),
                }
                Some(n)
            }
        }
    }

    fn escape(&mut self, d: &[u8]) -> Option<usize> {
        if d.len() < 2 {
            return None;
        }
        match d[1] {
            b'[' => (),
            b'7' => return Some(2),
            b'8' => return Some(2),
            _ => {
                self.unknown.push(format!("escape {:?}", d[1] as char));
                return Some(2);
            }
        }
        let end = 2 + d[2..].iter().position(|b| (0x40..=0x7e).contains(b))?;
        let params = String::from_utf8_lossy(&d[2..end]).into_owned();
        let (private, params) = match params.strip_prefix('?') {
            Some(p) => (true, p.to_owned()),
            None => (false, params),
        };
        let nums: Vec<Option<usize>> = params.split(';').map(|p| p.parse().ok()).collect();
        let p1 = nums[0].unwrap_or(0).max(1);
        let p2 = nums.get(1).copied().flatten().unwrap_or(0).max(1);
        let at = self.y * self.w + self.x;
        match (private, d[end]) {
            (false, b'H' | b'f') => {
                self.y = (p1 - 1).min(self.h - 1);
                self.x = (p2 - 1).min(self.w - 1);
                self.pending = false;
            }
            (false, b'A') => {
                self.y = self.y.saturating_sub(p1);
                self.pending = false;
            }
            (false, b'B') => {
                self.y = (self.y + p1).min(self.h - 1);
                self.pending = false;
            }
            (false, b'C') => {
                self.x = (self.x + p1).min(self.w - 1);
                self.pending = false;
            }
            (false, b'D') => {
                self.x = self.x.saturating_sub(p1);
                self.pending = false;
            }
            (false, b'E') => {
                self.y = (self.y + p1).min(self.h - 1);
                self.x = 0;
                self.pending = false;
            }
            (false, b'G') => {
                self.x = (p1 - 1).min(self.w - 1);
                self.pending = false;
            }
            (false, b'd') => {
                self.y = (p1 - 1).min(self.h - 1);
                self.pending = false;
            }
            (false, b'J') => match nums[0].unwrap_or(0) {
                0 => self.clear_cells(at, self.w * self.h),
                1 => self.clear_cells(0, at + 1),
                _ => self.clear_cells(0, self.w * self.h),
            },
            (false, b'K') => {
                let row = self.y * self.w;
                match nums[0].unwrap_or(0) {
                    0 => self.clear_cells(at, row + self.w),
                    1 => self.clear_cells(row, at + 1),
                    _ => self.clear_cells(row, row + self.w),
                }
            }
            (false, b'm') => self.rendition(&nums),
            (true, b'h' | b'l') => {
                let on = d[end] == b'h';
                for n in nums {
                    match n {
                        Some(25) => self.visible = on,
                        Some(1049) => self.switch(on),
                        Some(7 | 12 | 2004 | 2026) => (),
                        _ => self.unknown.push(format!("mode {:?}", params)),
                    }
                }
            }
            (_, c) => self.unknown.push(format!("sequence {:?} {:?}", params, c as char)),
        }
        Some(end + 1)
    }

    fn rendition(&mut self, nums: &[Option<usize>]) {
        let mut i = 0;
        while i < nums.len() {
            match nums[i].unwrap_or(0) {
                0 => {
                    self.fg = None;
                    self.bg = None;
                }
                39 => self.fg = None,
                49 => self.bg = None,
                n @ (38 | 48) => {
                    let c = match (nums.get(i + 1), nums.get(i + 2)) {
                        (Some(Some(5)), Some(Some(c))) => u8::try_from(*c).ok(),
                        _ => {
                            self.unknown.push(format!("color {:?}", nums));
                            return;
                        }
                    };
                    if n == 38 {
                        self.fg = c;
                    } else {
                        self.bg = c;
                    }
                    i += 2;
                }
                n @ 30..=37 => self.fg = Some(n as u8 - 30),
                n @ 40..=47 => self.bg = Some(n as u8 - 40),
                n @ 90..=97 => self.fg = Some(n as u8 - 82),
                n @ 100..=107 => self.bg = Some(n as u8 - 92),
                n => self.unknown.push(format!("rendition {}", n)),
            }
            i += 1;
        }
    }

    fn switch(&mut self, on: bool) {
        if on == self.alt {
            return;
        }
        self.alt = on;
        if on {
            self.alts += 1;
            let blank = vec![vec![self.blank(); self.w]; self.h];
            let cells = std::mem::replace(&mut self.cells, blank);
            self.saved = Some((cells, self.x, self.y, self.pending, self.fg, self.bg));
        } else {
            let (cells, x, y, pending, fg, bg) = self.saved.take().unwrap();
            self.cells = cells;
            self.x = x;
            self.y = y;
            self.pending = pending;
            self.fg = fg;
            self.bg = bg;
        }
    }

    fn text(&self) -> String {
        (0..self.h)
            .map(|y| format!("|{}|\n", self.cells[y].iter().map(|c| c.ch).collect::<String>()))
            .collect::<String>()
            + &format!("cursor at {},{}{}", self.x, self.y, if self.visible { "" } else { " (hidden)" })
    }

    /// Tells how this differs from `want`.
    fn differs(&self, want: &Screen) -> Option<String> {
        for y in 0..self.h {
            for x in 0..self.w {
                let (a, b) = (self.cells[y][x], want.cells[y][x]);
                let same = a.ch == b.ch && a.bg == b.bg && (a.ch == ' ' || a.fg == b.fg);
                if !same {
                    return Some(format!("cell {},{} has {:?} instead of {:?}", x, y, a, b));
                }
            }
        }
        if self.visible != want.cursor {
            return Some(format!("the cursor is {}visible", if self.visible { "" } else { "not " }));
        }
        if self.alt != want.alt {
            return Some("the wrong screen is active".to_owned());
        }
        if self.visible && (self.x, self.y) != (want.x.min(self.w - 1), want.y) {
            return Some(format!(
                "the cursor is at {},{} instead of {},{}",
                self.x, self.y, want.x, want.y
            ));
        }
        None
    }
}

// ---- Pseudo terminal

#[repr(C)]
struct Winsize {
    row: u16,
    col: u16,
    x: u16,
    y: u16,
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Termios {
    flags: [u32; 4],
    line: u8,
    cc: [u8; 32],
    speeds: [u32; 2],
}

unsafe extern "C" {
    fn openpty(m: *mut i32, s: *mut i32, name: *mut u8, t: *const u8, w: *const Winsize) -> i32;
    fn setsid() -> i32;
    fn ioctl(fd: i32, req: u64, ...) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn tcgetattr(fd: i32, t: *mut Termios) -> i32;
}

struct Pty {
    master: File,
    /// Kept open so that the attributes can be read after the program exits.
    slave: File,
    child: Child,
    before: [u32; 4],
    pub vt: Vt,
}

/// Only one thread at a time deals with descriptors that others could inherit.
static SPAWN: Mutex<()> = Mutex::new(());

impl Pty {
    fn attributes(fd: i32) -> [u32; 4] {
        let mut t = Termios { flags: [0; 4], line: 0, cc: [0; 32], speeds: [0; 2] };
        // SAFETY: `t` is as large as the structure.
        unsafe { tcgetattr(fd, &mut t) };
        t.flags
    }

    fn spawn(args: &[String], dir: &std::path::Path, w: usize, h: usize) -> Result<Self, String> {
        let lock = SPAWN.lock().unwrap();
        let (mut m, mut s) = (0, 0);
        let ws = Winsize { row: h as u16, col: w as u16, x: 0, y: 0 };
        // SAFETY: All pointers are valid.
        unsafe {
            if openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) != 0 {
                return Err(format!("cannot open a terminal: {}", io::Error::last_os_error()));
            }
            fcntl(m, 2, 1);
            fcntl(s, 2, 1);
        }
        // SAFETY: The descriptors were just created.
        let (master, slave) = unsafe { (File::from_raw_fd(m), File::from_raw_fd(s)) };
        let before = Self::attributes(s);
        let mut cmd = Command::new(binary());
        cmd.args(args)
            .current_dir(dir)
            .env_clear()
            .env("HOME", dir)
            .env("TERM", "xterm-256color")
            .stdin(Stdio::from(slave.try_clone().map_err(|e| e.to_string())?))
            .stdout(Stdio::from(slave.try_clone().map_err(|e| e.to_string())?))
            .stderr(Stdio::from(File::create(dir.join("stderr")).map_err(|e| e.to_string())?));
        // SAFETY: Only async-signal-safe functions are called.
        unsafe {
            cmd.pre_exec(|| {
                setsid();
                ioctl(0, 0x540e, 0);
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|e| format!("cannot run the tool: {}", e))?;
        drop(lock);
        Ok(Pty { master, slave, child, before, vt: Vt::new(w, h) })
    }

    /// Processes output for up to `ms` milliseconds; false if there was none.
    fn pump(&mut self, ms: i32) -> bool {
        let mut p = PollFd { fd: self.master.as_raw_fd(), events: 1, revents: 0 };
        // SAFETY: `p` is valid.
        if unsafe { poll(&mut p, 1, ms) } <= 0 || p.revents & 1 == 0 {
            return false;
        }
        let mut buf = [0; 4096];
        match self.master.read(&mut buf) {
            Ok(n) if n > 0 => {
                self.vt.feed(&buf[..n]);
                true
            }
            _ => false,
        }
    }

    fn send(&mut self, data: &[u8]) -> Result<(), String> {
        self.master.write_all(data).map_err(|e| format!("cannot type: {}", e))
    }

    /// Waits until `done` holds.
    fn until(&mut self, what: &str, done: &dyn Fn(&Vt) -> Option<String>) -> Result<(), String> {
        let start = Instant::now();
        loop {
            let Some(why) = done(&self.vt) else {
                return Ok(());
            };
            let exited = matches!(self.child.try_wait(), Ok(Some(_)));
            let got = self.pump(if exited { 0 } else { 20 });
            if !got && (exited || start.elapsed() > Duration::from_secs(patience())) {
                if done(&self.vt).is_none() {
                    return Ok(());
                }
                return Err(format!(
                    "{}: {}{}; the screen is\n{}",
                    what,
                    why,
                    if exited { " and the tool exited" } else { "" },
                    self.vt.text()
                ));
            }
        }
    }

    /// Waits for the tool to take control over the terminal, as what is typed before is echoed.
    fn until_raw(&mut self) -> Result<(), String> {
        let start = Instant::now();
        while Self::attributes(self.slave.as_raw_fd()) == self.before {
            self.pump(1);
            if matches!(self.child.try_wait(), Ok(Some(_))) {
                return Err("the tool exits at once".to_owned());
            }
            if start.elapsed() > Duration::from_secs(patience()) {
                return Err("the terminal does not enter raw mode".to_owned());
            }
        }
        Ok(())
    }

    /// Waits for the tool to exit.
    fn finish(&mut self) -> Result<i32, String> {
        let start = Instant::now();
        loop {
            let status = self.child.try_wait().map_err(|e| e.to_string())?;
            let got = self.pump(if status.is_some() { 0 } else { 5 });
            if let Some(st) = status
                && !got
            {
                let after = Self::attributes(self.slave.as_raw_fd());
                if after != self.before {
                    return Err("the terminal was left in raw mode".to_owned());
                }
                return st.code().ok_or("the tool was killed".to_owned());
            }
            if start.elapsed() > Duration::from_secs(patience()) {
                return Err(format!("the tool does not exit; the screen is\n{}", self.vt.text()));
            }
        }
    }
}

impl Drop for Pty {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PATIENCE: RefCell<u64> = const { RefCell::new(20) };
}

/// Seconds to wait for the tool to do something.
fn patience() -> u64 {
    PATIENCE.with(|p| *p.borrow())
}

/// What a terminal sends when `key` is pressed.
fn bytes(key: &Key, how: usize) -> Vec<u8> {
    let alts: &[&[u8]] = match key {
        Key::Char(c) => return c.to_string().into_bytes(),
        Key::Backspace => &[b"\x7f"],
        Key::Delete => &[b"\x1b[3~"],
        Key::Home => &[b"\x01", b"\x1b[H", b"\x1b[1~"],
        Key::End => &[b"\x05", b"\x1b[F", b"\x1b[4~"],
        Key::ArrowUp => &[b"\x10", b"\x1b[A"],
        Key::ArrowDown => &[b"\x0e", b"\x1b[B"],
        Key::ArrowLeft => &[b"\x02", b"\x1b[D"],
        Key::ArrowRight => &[b"\x06", b"\x1b[C"],
        Key::NewLine => &[b"\r", b"\n"],
        Key::Tab => &[b"\t"],
        Key::PageUp => &[b"\x1b[5~"],
        Key::PageDown => &[b"\x1b[6~"],
        Key::EofOrDelete => &[b"\x04"],
        Key::Escape => &[b"\x1b"],
        Key::Unknown => &[b"\x1b[2~", b"\x1bOP"],
        k => panic!("unexpected key {:?}", k),
    };
    alts[how % alts.len()].to_vec()
}

// ---- The same on an ideal console

thread_local! {
    static TERM: RefCell<Option<Rc<RefCell<Term>>>> = const { RefCell::new(None) };
}

/// Creates the console that the thread has ready.
struct Ideal(usize, usize, Vec<Key>);

impl ConsoleFactory for Ideal {
    fn build(self: Box<Self>) -> io::Result<Rc<RefCell<dyn Console>>> {
        let mut t = Term::new(self.0, self.1);
        t.keys = self.2.into();
        let t = Rc::from(RefCell::from(t));
        TERM.with(|x| *x.borrow_mut() = Some(t.clone()));
        Ok(t)
    }
}

struct Want {
    code: i32,
    err: String,
    term: Rc<RefCell<Term>>,
}

fn ideal(w: usize, h: usize, keys: &[Key], script: Option<&std::path::Path>) -> Result<Want, String> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .map_err(|e| e.to_string())?;
    let f = Box::new(Ideal(w, h, keys.to_vec()));
    let signals = async_channel::unbounded();
    let r = rt.block_on(async {
        match script {
            Some(p) => endbasic::run_script(p, f, signals, None).await,
            None => {
                endbasic::run_repl_loop(f, signals, None, "memory://", "http://127.0.0.1:1/").await
            }
        }
    });
    let term = TERM.with(|t| t.borrow_mut().take()).ok_or("no console was created")?;
    let (code, err) = match r {
        Ok(c) => (c, String::new()),
        Err(e) => (1, format!("endbasic: {}\n", e)),
    };
    Ok(Want { code, err, term })
}

// ---- Generation

fn word(s: &mut Src, max: i64) -> String {
    let n = s.range(0, max);
    (0..n)
        .map(|_| *s.pick(&['a', 'b', ' ', 'Z', '0', '\'', '-', '\u{e9}', '\u{f1}', '\u{df}', '"', '|']))
        .collect()
}

fn statement(s: &mut Src, w: usize, h: usize, input: bool, script: bool) -> String {
    let t = word(s, w as i64 / 2);
    match s.idx(if input { 14 } else { 12 }) {
        0 | 1 => format!("PRINT {}", quote(&t)),
        2 => format!("PRINT {};", quote(&t)),
        3 => "CLS".to_owned(),
        4 => format!("COLOR {}, {}", s.range(0, 255), s.range(0, 255)),
        5 => (*s.pick(&["COLOR", "COLOR 5", "COLOR , 3", "COLOR 200, 0"])).to_owned(),
        6 | 7 => format!(
            "LOCATE {}, {}: PRINT {}{}",
            s.idx(w / 2),
            s.idx(h),
            quote(&t),
            if s.chance(1, 2) { ";" } else { "" }
        ),
        8 => format!("FOR i = 1 TO {}: PRINT i; {}: NEXT", s.range(1, h as i64 + 2), quote(&word(s, 4))),
        // Without synchronization, nothing is known about the screen until the end.
        9 => (*s.pick::<&str>(if input { &["GFX_SYNC TRUE", "GFX_SYNC"] } else { &["GFX_SYNC FALSE", "GFX_SYNC"] })).to_owned(),
        10 => "PRINT STRING$(COLS() - 1)".replace("STRING$(COLS() - 1)", &quote(&"x".repeat(w - 1))),
        11 => format!("PRINT {}; {}", quote(&"y".repeat(w)), if script { "1" } else { "2" }),
        // The line editor cannot know of anything that precedes the prompt.
        12 => "PRINT: INPUT a$".to_owned(),
        _ => format!("PRINT: INPUT {}; a$: PRINT a$", quote(&word(s, 5))),
    }
}

/// Adds the keys that type `text` with a few detours.
fn type_line(s: &mut Src, keys: &mut Vec<Key>, text: &str, edits: bool) {
    for c in text.chars() {
        if edits && s.chance(1, 12) {
            match s.idx(9) {
                0 => {
                    keys.push(Key::Char('Q'));
                    keys.push(Key::Backspace);
                }
                1 => {
                    keys.push(Key::ArrowLeft);
                    keys.push(Key::ArrowRight);
                }
                2 => {
                    keys.push(Key::Home);
                    keys.push(Key::End);
                }
                3 => {
                    keys.push(Key::Char('Q'));
                    keys.push(Key::ArrowLeft);
                    keys.push(if s.chance(1, 2) { Key::Delete } else { Key::EofOrDelete });
                }
                4 => keys.push(Key::Unknown),
                5 => keys.push(Key::PageUp),
                6 => {
                    keys.push(Key::Home);
                    keys.push(Key::ArrowLeft);
                    keys.push(Key::Backspace);
                    keys.push(Key::End);
                }
                7 => {
                    keys.push(Key::End);
                    keys.push(Key::ArrowRight);
                    keys.push(Key::Delete);
                }
                _ => keys.push(Key::PageDown),
            }
        }
        keys.push(Key::Char(c));
    }
}

/// Lengths of the bursts in which `n` keys are typed.
fn bursts(s: &mut Src, keys: &[Key]) -> Vec<usize> {
    let mut v = vec![];
    let mut len = 0;
    let limit = *s.pick(&[30, 4, 100, 1, 300]);
    for k in keys {
        len += 1;
        // A terminal cannot tell the escape key from the start of what follows.
        if *k == Key::Escape || len >= limit {
            v.push(len);
            len = 0;
        }
    }
    if len > 0 {
        v.push(len);
    }
    v
}

fn drive(
    args: &[String],
    dir: &std::path::Path,
    (w, h): (usize, usize),
    keys: &[Key],
    how: &[usize],
    bursts: &[usize],
    want: &Want,
) -> CaseResult {
    let term = want.term.borrow();
    let mut pty = Pty::spawn(args, dir, w, h)?;
    let mut sent = 0;
    if !keys.is_empty() {
        pty.until_raw()?;
    }
    for n in bursts {
        let snap = &term.snaps[sent];
        let age = term.ages[sent];
        pty.until(&format!("before key {}", sent), &|vt| {
            // The same screen may have been there before.
            if (vt.gone.len(), vt.alts) != age {
                return Some(format!("{:?} is not {:?}", (vt.gone.len(), vt.alts), age));
            }
            vt.differs(snap)
        })?;
        if sent > 0 && keys[sent - 1] == Key::Escape {
            // If the key had no effect, there is no way to tell that it was seen.
            std::thread::sleep(Duration::from_millis(20));
        }
        for k in &keys[sent..sent + n] {
            let b = bytes(k, how[sent % how.len()]);
            pty.send(&b)?;
            sent += 1;
        }
    }
    let code = pty.finish()?;
    if !pty.vt.unknown.is_empty() {
        return Err(format!("the terminal got {:?}", pty.vt.unknown));
    }
    if let Some(d) = pty.vt.differs(&term.s) {
        return Err(format!("at the end: {}; the screen is\n{}\n--- instead of\n{}", d, pty.vt.text(), term.s.text()));
    }
    if (pty.vt.fg, pty.vt.bg) != (term.fg, term.bg) {
        return Err(format!(
            "the colors are {:?} at the end instead of {:?}",
            (pty.vt.fg, pty.vt.bg),
            (term.fg, term.bg)
        ));
    }
    if pty.vt.gone != term.gone {
        return Err(format!("scrolled away {:?} instead of {:?}", pty.vt.gone, term.gone));
    }
    let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
    if code != want.code || err != want.err {
        return Err(format!(
            "exits with {} and {:?} instead of {} and {:?}",
            code, err, want.code, want.err
        ));
    }
    Ok(())
}

/// Runs a scenario until it passes, up to three times, as the machine may be busy.
fn retrying(f: &dyn Fn() -> CaseResult) -> CaseResult {
    let mut r = Ok(());
    for _ in 0..3 {
        r = f();
        if r.is_ok() {
            break;
        }
    }
    r
}

fn show_keys(keys: &[Key]) -> String {
    let mut o = String::new();
    for k in keys {
        match k {
            Key::Char(c) => o.push(*c),
            Key::NewLine => o.push_str("<NewLine>\n"),
            k => o.push_str(&format!("<{:?}>", k)),
        }
    }
    o
}

fn differential(s: &mut Src, case: &mut Case) -> CaseResult {
    let w = s.range(20, 80) as usize;
    let h = s.range(4, 12) as usize;
    let dir = Scratch::new("pty");
    let mut keys = vec![];
    let how: Vec<usize> = (0..7).map(|_| s.idx(3)).collect();
    let script = s.chance(2, 5);
    let mut text = format!("{}x{} ", w, h);
    let mut args = vec![];
    let path = dir.0.join("prog.bas");
    if script {
        case.label("script");
        let n = s.range(1, 12);
        let mut body = String::new();
        for _ in 0..n {
            let st = statement(s, w, h, true, true);
            if st.contains("INPUT") {
                let t = word(s, 6);
                type_line(s, &mut keys, &t, true);
                keys.push(Key::NewLine);
            }
            body.push_str(&st);
            body.push('\n');
        }
        match s.idx(6) {
            0 => body.push_str("END 3\n"),
            1 => body.push_str("x = 1 / 0\n"),
            _ => (),
        }
        std::fs::write(&path, &body).map_err(|e| e.to_string())?;
        text.push_str(&format!("script:\n{}typing {}", body, show_keys(&keys)));
        args.push("prog.bas".to_owned());
    } else {
        case.label("session");
        args.push("--local-drive=memory://".to_owned());
        args.push("--service-url=http://127.0.0.1:1/".to_owned());
        for _ in 0..s.range(1, 7) {
            match s.idx(12) {
                0 | 1 => {
                    // Something from the history.
                    for _ in 0..s.range(1, 3) {
                        keys.push(if s.chance(3, 4) { Key::ArrowUp } else { Key::ArrowDown });
                    }
                    if s.chance(1, 2) {
                        keys.push(Key::Backspace);
                    }
                    keys.push(Key::NewLine);
                }
                2 | 3 => {
                    type_line(s, &mut keys, "EDIT", false);
                    keys.push(Key::NewLine);
                    for _ in 0..s.range(0, 25) {
                        keys.push(match s.idx(16) {
                            0 => Key::NewLine,
                            1 => Key::Backspace,
                            2 => Key::Delete,
                            3 => Key::ArrowUp,
                            4 => Key::ArrowDown,
                            5 => Key::ArrowLeft,
                            6 => Key::ArrowRight,
                            7 => Key::Home,
                            8 => Key::End,
                            9 => Key::Tab,
                            10 => Key::PageUp,
                            11 => Key::PageDown,
                            _ => Key::Char(*s.pick(&['a', 'b', ' ', '\'', '\u{e9}'])),
                        });
                    }
                    keys.push(Key::Escape);
                }
                4 => {
                    let c = *s.pick(&["LIST", "NEW", "DIR", "CLEAR", "RUN"]);
                    type_line(s, &mut keys, c, true);
                    keys.push(Key::NewLine);
                }
                5 => {
                    let topic = *s.pick(&["HELP \"CLS\"", "HELP", "HELP \"console\"", "HELP \"x\""]);
                    type_line(s, &mut keys, topic, false);
                    keys.push(Key::NewLine);
                    // Might be paged or not: these keys do no harm otherwise.
                    for _ in 0..s.range(0, 3) {
                        keys.push(Key::Char(' '));
                    }
                    keys.push(Key::Backspace);
                }
                _ => {
                    let st = statement(s, w, h, true, false);
                    type_line(s, &mut keys, &st, true);
                    keys.push(Key::NewLine);
                    if st.contains("INPUT") {
                        let t = word(s, 6);
                        type_line(s, &mut keys, &t, true);
                        keys.push(Key::NewLine);
                    }
                }
            }
        }
        if s.chance(1, 3) {
            type_line(s, &mut keys, "END 5", false);
            keys.push(Key::NewLine);
            // In case that there are changes to save.
            keys.push(Key::Char('y'));
            keys.push(Key::NewLine);
        }
        // Leave, no matter what is going on.
        keys.push(Key::Home);
        for _ in 0..3 {
            keys.push(Key::NewLine);
            keys.push(Key::EofOrDelete);
        }
        text.push_str(&format!("typing {}", show_keys(&keys)));
    }
    case.set_text(text);
    let want = ideal(w, h, &keys, if script { Some(&path) } else { None })?;
    {
        let t = want.term.borrow();
        if !t.bad.is_empty() {
            case.discarded = true;
            return Ok(());
        }
        if t.snaps.len() > keys.len() {
            // There were not enough keys.
            case.discarded = true;
            return Ok(());
        }
        keys.truncate(t.snaps.len());
        if !t.gone.is_empty() {
            case.label("scrolls");
        }
        if t.snaps.iter().any(|s| s.alt) {
            case.label("editor");
        }
        case.nontrivial = t.s.cells.iter().flatten().any(|c| c.ch != ' ') || !t.gone.is_empty();
    }
    let b = bursts(s, &keys);
    retrying(&|| drive(&args, &dir.0, (w, h), &keys, &how, &b, &want))
}

/// Interrupting a running program.
fn interrupt(s: &mut Src, case: &mut Case) -> CaseResult {
    case.label("interrupt");
    case.nontrivial = true;
    let dir = Scratch::new("pty");
    let stuck = *s.pick(&[
        "WHILE TRUE: WEND",
        "DO: LOOP",
        "DO: LOOP WHILE TRUE",
        "DO: LOOP UNTIL FALSE",
        "x = 0: DO: x = x + 0: LOOP UNTIL x <> 0",
        "DO WHILE TRUE: LOOP",
        "DO UNTIL FALSE: LOOP",
        "FOR i = 10 TO 1 STEP -1: i = 9: NEXT",
        "@a: GOTO @a",
        "@a: IF TRUE THEN GOTO @a",
        "@a: x = 1: GOTO @a",
        "FOR i = 1 TO 2: i = 1: NEXT",
        "DO: GOSUB @b: LOOP: END: @b: RETURN",
        "ON ERROR RESUME NEXT: DO: z = 1 / 0: LOOP",
    ]);
    let t = word(s, 5).replace('"', "");
    let (w, h) = (70, 12);
    let line = format!("PRINT \"{}\": PRINT \"go\": {}", t, stuck);
    let shows = |vt: &Vt, what: &str| {
        let found = (0..vt.h).any(|y| {
            vt.cells[y].iter().map(|c| c.ch).collect::<String>().trim_end() == what
        });
        if found { None } else { Some(format!("no line {:?}", what)) }
    };
    if s.chance(1, 2) {
        std::fs::write(dir.0.join("prog.bas"), format!("{}\n", line)).map_err(|e| e.to_string())?;
        case.set_text(format!("script:\n{}\ninterrupted", line));
        return retrying(&|| {
            let mut pty = Pty::spawn(&["prog.bas".to_owned()], &dir.0, w, h)?;
            pty.until("start", &|vt| shows(vt, "go"))?;
            pty.send(b"\x03")?;
            let code = pty.finish()?;
            let err = std::fs::read_to_string(dir.0.join("stderr")).unwrap_or_default();
            if code != 130 || !err.is_empty() {
                return Err(format!("exits with {} and {:?}", code, err));
            }
            shows(&pty.vt, "go").map_or(Ok(()), Err)
        });
    }
    let code = s.range(0, 127) as i32;
    case.set_text(format!("session:\n{}\ninterrupted, then END {}", line, code));
    let args = ["--local-drive=memory://".to_owned()];
    retrying(&|| {
        let mut pty = Pty::spawn(&args, &dir.0, w, h)?;
        pty.until("start", &|vt| shows(vt, "Ready"))?;
        pty.send(format!("{}\r", line).as_bytes())?;
        pty.until("program", &|vt| shows(vt, "go"))?;
        pty.send(b"\x03")?;
        pty.until("break", &|vt| shows(vt, "**** BREAK ****"))?;
        pty.send(b"PRINT \"alive\"\r")?;
        pty.until("after", &|vt| shows(vt, "alive"))?;
        pty.send(format!("END {}\r", code).as_bytes())?;
        let got = pty.finish()?;
        if got != code {
            return Err(format!("exits with {}", got));
        }
        Ok(())
    })
}

pub fn pty(s: &mut Src, case: &mut Case) -> CaseResult {
    if s.chance(1, 20) { interrupt(s, case) } else { differential(s, case) }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U05",
        rule: "Scripts and sessions typed key by key into the real binary on a pseudo terminal of random size, whose output goes through a terminal emulator. The screen (characters, colors, cursor) must become the one of an ideal console driven by the same program whenever a key is awaited, and at the end also the lines that scrolled away, the colors, the exit code and the terminal's mode. Endless programs are interrupted with CTRL-C. Non-trivial: something is shown.",
        quick: 6_000,
        thorough: 200_000,
        run: pty,
        assumptions: &["The terminal behaves like xterm."],
    }]
}
