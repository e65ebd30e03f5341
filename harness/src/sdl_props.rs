//! Properties of the console in a window, on SDL's driver without a display.

use crate::engine::*;
use crate::gfx_props::{FONTS, Look, Op, console_ops, follow, shapes_on, some_color};
use endbasic_std::Signal;
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::Fonts;
use endbasic_std::sound::Tone;
use futures_lite::future::block_on;
use sdl2::sys;
use std::cell::RefCell;
use std::io;
use std::mem::ManuallyDrop;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Mutex, PoisonError, mpsc};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

/// There can only be one window per process.
static SDL: Mutex<()> = Mutex::new(());

/// Discards messages of SDL.
extern "C" fn quiet(
    _: *mut std::ffi::c_void,
    _: std::ffi::c_int,
    _: sys::SDL_LogPriority,
    _: *const std::ffi::c_char,
) {
}

/// Selects the drivers of SDL. To be called before starting any thread.
pub fn init() {
    for (k, v) in [("SDL_VIDEODRIVER", "dummy"), ("SDL_FRAMEBUFFER_ACCELERATION", "0"), ("SDL_RENDER_DRIVER", "software"), ("SDL_AUDIODRIVER", "disk"), ("SDL_DISKAUDIODELAY", "1")] {
        // SAFETY: There are no other threads yet.
        unsafe { std::env::set_var(k, v) };
    }
    // SAFETY: As above.
    unsafe {
        std::env::set_var("SDL_DISKAUDIOFILE", sound_file());
        sys::SDL_LogSetOutputFunction(Some(quiet), std::ptr::null_mut());
    };
}

/// File to which SDL writes what it plays.
fn sound_file() -> PathBuf {
    std::env::temp_dir().join(format!("vp-sound-{}", std::process::id()))
}

type Con = Rc<RefCell<dyn Console>>;

/// A window and the thread that hosts it.
struct Win {
    con: ManuallyDrop<Con>,
    host: Option<JoinHandle<io::Result<()>>>,
    signals: async_channel::Receiver<Signal>,
}

impl Win {
    fn open(spec: &str) -> Result<Win, String> {
        let (signals_tx, signals) = async_channel::unbounded();
        let (tx, rx) = mpsc::channel();
        let spec = spec.to_owned();
        let host = std::thread::spawn(move || {
            let mut spec = ConsoleSpec::init(&spec);
            let r = endbasic_sdl::setup(&mut spec, signals_tx, &Fonts::all());
            let r = r.map_err(|e| e.to_string()).and_then(|r| spec.finish().map(|_| r).map_err(|e| e.to_string()));
            match r {
                Ok((host, factory)) => {
                    tx.send(Ok(factory)).unwrap();
                    host.run()
                }
                Err(e) => {
                    tx.send(Err(e)).unwrap();
                    Ok(())
                }
            }
        });
        let factory = rx.recv().map_err(|_| "the host ended".to_owned())??;
        let con = factory.build().map_err(|e| e.to_string())?;
        Ok(Win { con: ManuallyDrop::new(con), host: Some(host), signals })
    }
}

impl Drop for Win {
    fn drop(&mut self) {
        let host = self.host.take().unwrap();
        if std::thread::panicking() {
            std::thread::sleep(Duration::from_millis(100));
            if host.is_finished() {
                // The console's own destructor needs the host.
                return;
            }
        }
        // SAFETY: This is done once.
        unsafe { ManuallyDrop::drop(&mut self.con) };
        let r = host.join();
        if !std::thread::panicking() {
            r.expect("host panicked").expect("host failed");
        }
    }
}

/// Contents of the window.
fn look() -> Result<Vec<RGB>, String> {
    // SAFETY: The host has answered the last request so it does not touch the window.
    unsafe {
        let win = (1..10).map(|i| sys::SDL_GetWindowFromID(i)).find(|w| !w.is_null()).ok_or("there is no window")?;
        let su = sys::SDL_GetWindowSurface(win);
        if su.is_null() {
            return Err("the window has no contents".to_owned());
        }
        let f = &*(*su).format;
        if f.BytesPerPixel != 4 {
            return Err(format!("the window has {} bytes per pixel", f.BytesPerPixel));
        }
        let (w, h, pitch) = ((*su).w as usize, (*su).h as usize, (*su).pitch as usize);
        let mut v = Vec::with_capacity(w * h);
        for y in 0..h {
            let row = ((*su).pixels as *const u8).add(y * pitch) as *const u32;
            for x in 0..w {
                let p = *row.add(x);
                v.push(((p >> f.Rshift) as u8, (p >> f.Gshift) as u8, (p >> f.Bshift) as u8));
            }
        }
        Ok(v)
    }
}

fn sdl(s: &mut Src, case: &mut Case) -> CaseResult {
    let _lock = SDL.lock().unwrap_or_else(PoisonError::into_inner);
    match s.weighted(&[40, 40, 20, 1, 4]) {
        0 => text(s, case),
        1 => drawing(s, case),
        2 => keys(s, case),
        4 => tones(s, case),
        _ => bad_spec(s, case),
    }
}

/// What `follow` expects of lines does not hold if they have a single point, as these are not drawn in windows.
fn avoid_points(op: Op) -> Op {
    match op {
        Op::Line(x, y, 0, v) => Op::Line(x, y, 1, v),
        Op::Rectf(x, y, 0, 0) => Op::Rectf(x, y, 1, 0),
        op => op,
    }
}

fn text(s: &mut Src, case: &mut Case) -> CaseResult {
    let font = FONTS[s.weighted(&[3, 3, 1])];
    let (gw, gh) = (font.glyph_size.width as i64, font.glyph_size.height as i64);
    let (cols, rows) = (s.range(2, 8), s.range(2, 4));
    let (w, h) = (cols * gw + s.range(0, gw - 1), rows * gh + s.range(0, gh - 1));
    let def = (some_color(s), some_color(s));
    let ops: Vec<Op> = console_ops(s, (w, h), (cols, rows)).into_iter().map(avoid_points).collect();
    let mut spec = format!("sdl:resolution={}x{}", w, h);
    if font.name != "vga8x16" {
        spec += &format!(",font={}", font.name);
    }
    for (k, c) in [("fg_color", def.0), ("bg_color", def.1)] {
        if let Some(c) = c {
            spec += &format!(",{}={}", k, c);
        }
    }
    case.label("text");
    case.set_text(format!("--console={}\n", spec));
    let win = Win::open(&spec)?;
    follow(case, font, (w, h), def, &ops, &mut *win.con.borrow_mut(), &look, |c| c)
}

fn drawing(s: &mut Src, case: &mut Case) -> CaseResult {
    case.label("shapes");
    // The window must outlive everything else that uses its console.
    let win: RefCell<Option<Win>> = RefCell::default();
    shapes_on(
        s,
        case,
        &|w, h| {
            let new = Win::open(&format!("sdl:resolution={}x{},font=5x8", w, h))?;
            let con: Con = Rc::clone(&new.con);
            *win.borrow_mut() = Some(new);
            Ok((con, Box::new(look) as Look))
        },
        true,
    )
}

#[derive(Clone, Debug)]
enum Input {
    /// A key with modifiers.
    Down(i32, u16),
    Text(char),
    Quit,
    /// Events that are not keys.
    Other(u32),
    Wait,
    Poll,
    Read,
    Print(char),
}

fn push(i: &Input) {
    // SAFETY: All zeros is a valid event and SDL copies the event; any thread can do this.
    unsafe {
        let mut e: sys::SDL_Event = std::mem::zeroed();
        match i {
            Input::Down(sym, mods) => {
                e.type_ = sys::SDL_EventType::SDL_KEYDOWN as u32;
                e.key.state = 1;
                e.key.keysym.sym = *sym;
                e.key.keysym.mod_ = *mods;
            }
            Input::Text(c) => {
                e.type_ = sys::SDL_EventType::SDL_TEXTINPUT as u32;
                let mut buf = [0; 4];
                for (i, b) in c.encode_utf8(&mut buf).bytes().enumerate() {
                    e.text.text[i] = b as _;
                }
            }
            Input::Quit => e.type_ = sys::SDL_EventType::SDL_QUIT as u32,
            Input::Other(t) => {
                e.type_ = *t;
                if *t == sys::SDL_EventType::SDL_KEYUP as u32 {
                    e.key.keysym.sym = 'c' as i32;
                    e.key.keysym.mod_ = 0x40;
                }
            }
            _ => (),
        }
        assert_eq!(sys::SDL_PushEvent(&mut e), 1, "event not queued");
    }
}

const NAMED: &[(i32, Key)] = &[
    (8, Key::Backspace),
    (9, Key::Tab),
    (13, Key::NewLine),
    (27, Key::Escape),
    (127, Key::Delete),
    (0x4000004a, Key::Home),
    (0x4000004b, Key::PageUp),
    (0x4000004d, Key::End),
    (0x4000004e, Key::PageDown),
    (0x4000004f, Key::ArrowRight),
    (0x40000050, Key::ArrowLeft),
    (0x40000051, Key::ArrowDown),
    (0x40000052, Key::ArrowUp),
];

const CONTROL: &[(char, Key)] = &[
    ('a', Key::Home),
    ('b', Key::ArrowLeft),
    ('c', Key::Interrupt),
    ('d', Key::EofOrDelete),
    ('e', Key::End),
    ('f', Key::ArrowRight),
    ('j', Key::NewLine),
    ('m', Key::NewLine),
    ('n', Key::ArrowDown),
    ('p', Key::ArrowUp),
];

/// The key that an event stands for, if any.
fn meaning(i: &Input) -> Option<Key> {
    match i {
        Input::Down(sym, mods) => {
            if let Some((_, k)) = NAMED.iter().find(|n| n.0 == *sym) {
                return Some(*k);
            }
            if mods & 0xc0 == 0 {
                return None;
            }
            CONTROL.iter().find(|n| n.0 as i32 == *sym).map(|n| n.1)
        }
        Input::Text(c) => Some(Key::Char(*c)),
        Input::Quit => Some(Key::EofOrDelete),
        _ => None,
    }
}

fn keys(s: &mut Src, case: &mut Case) -> CaseResult {
    let n = s.range(3, 40);
    let mods = |s: &mut Src| *s.pick(&[0u16, 0, 0x40, 0x80, 0x40, 0x41, 0x2, 0x100, 0x1000, 0x1040, 0x2080]);
    let ops: Vec<Input> = (0..n)
        .map(|_| match s.weighted(&[4, 3, 3, 4, 1, 2, 2, 3, 3, 1]) {
            0 => Input::Down(s.pick(NAMED).0, mods(s)),
            1 => Input::Down(s.pick(CONTROL).0 as i32, mods(s)),
            2 => Input::Down(s.range(32, 126) as i32, mods(s)),
            3 => Input::Text(*s.pick(&['a', 'Z', '0', ' ', 'é', '日', '🦀', '"'])),
            4 => Input::Quit,
            5 => Input::Other(*s.pick(&[0x301, 0x400, 0x401, 0x402, 0x403, 0x200, 0x302])),
            6 => Input::Wait,
            7 => Input::Poll,
            8 => Input::Read,
            _ => Input::Print('x'),
        })
        .collect();
    case.label("keys");
    case.set_text(ops.iter().map(|o| format!("{:?}\n", o)).collect::<String>());
    let win = Win::open("sdl:resolution=40x32")?;
    let mut con = win.con.borrow_mut();
    let mut want = std::collections::VecDeque::new();
    let (mut breaks, mut reads, mut delivered) = (0, 0, 0);
    let mut poll = |con: &mut dyn Console, want: &mut std::collections::VecDeque<Key>, patient: bool| -> CaseResult {
        let start = Instant::now();
        loop {
            let k = block_on(con.poll_key()).map_err(|e| e.to_string())?;
            match (k, want.front()) {
                (Some(k), Some(w)) if k == *w => {
                    want.pop_front();
                    delivered += 1;
                    return Ok(());
                }
                (Some(k), w) => return Err(format!("key {:?} instead of {:?}", k, w)),
                (None, None) => return Ok(()),
                (None, Some(w)) => {
                    if !patient {
                        return Ok(());
                    }
                    if start.elapsed() > Duration::from_secs(10) {
                        return Err(format!("key {:?} is not delivered", w));
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        }
    };
    for op in &ops {
        match op {
            Input::Wait => std::thread::sleep(Duration::from_millis(2)),
            Input::Poll => poll(&mut *con, &mut want, false)?,
            Input::Read => {
                if let Some(w) = want.pop_front() {
                    reads += 1;
                    let k = block_on(con.read_key()).map_err(|e| e.to_string())?;
                    if k != w {
                        return Err(format!("key {:?} read instead of {:?}", k, w));
                    }
                }
            }
            Input::Print(c) => con.print(&c.to_string()).map_err(|e| e.to_string())?,
            op => {
                push(op);
                if let Some(k) = meaning(op) {
                    breaks += (k == Key::Interrupt) as usize;
                    want.push_back(k);
                }
            }
        }
    }
    while !want.is_empty() {
        poll(&mut *con, &mut want, true)?;
    }
    // Nothing else arrives.
    push(&Input::Text('$'));
    want.push_back(Key::Char('$'));
    poll(&mut *con, &mut want, true)?;
    let mut got = 0;
    while let Ok(sig) = win.signals.try_recv() {
        if !matches!(sig, Signal::Break) {
            return Err(format!("signal {:?}", sig));
        }
        got += 1;
    }
    if got != breaks {
        return Err(format!("{} signals for {} interruptions", got, breaks));
    }
    case.nontrivial = reads + delivered > 3;
    if breaks > 0 {
        case.label("interrupted");
    }
    Ok(())
}

/// Tones are square waves of their frequency and duration.
fn tones(s: &mut Src, case: &mut Case) -> CaseResult {
    const RATE: f64 = 44100.0;
    let n = s.range(1, 3);
    let list: Vec<(u32, u64)> = (0..n)
        .map(|_| {
            let f = match s.range(0, 5) {
                0 => *s.pick(&[0, 1, 22050, 22051, 30000, 44100, u32::MAX]),
                1 => s.range(1, 60) as u32,
                _ => s.range(30, 8000) as u32,
            };
            let us = match s.range(0, 3) {
                0 => *s.pick(&[0, 1, 11, 12, 22, 23, 34, 35]),
                1 => s.range(0, 2000) as u64,
                _ => s.range(0, 60000) as u64,
            };
            (f, us)
        })
        .collect();
    case.label("tones");
    case.set_text(list.iter().map(|(f, d)| format!("{} Hz for {} us\n", f, d)).collect::<String>());
    let _ = std::fs::remove_file(sound_file());
    let win = Win::open("sdl:resolution=20x32")?;
    // What plays must be this, with any silence in between.
    let mut want: Vec<(usize, u32)> = vec![];
    for (f, us) in &list {
        let exact = RATE * *us as f64 / 1e6;
        let count = exact.round() as usize;
        if exact.fract() == 0.5 {
            // Rounding in either direction is right.
            continue;
        }
        let r = block_on(win.con.borrow_mut().play_tone(Tone::square(*f, Duration::from_micros(*us))));
        if *f == 0 {
            match r {
                Err(e) if e.to_string() == "Tone frequency must be positive" => (),
                r => return Err(format!("a tone of 0 Hz is {:?}", r)),
            }
            continue;
        }
        r.map_err(|e| e.to_string())?;
        if count > 0 {
            want.push((count, *f));
        }
    }
    drop(win);
    let played = std::fs::read(sound_file()).unwrap_or_default();
    let _ = std::fs::remove_file(sound_file());
    let samples: Vec<i16> = played.chunks_exact(2).map(|b| i16::from_le_bytes([b[0], b[1]])).collect();
    let mut at = 0;
    for (count, f) in &want {
        while at < samples.len() && samples[at] == 0 {
            at += 1;
        }
        let got = samples[at..].iter().take_while(|v| **v != 0).count();
        if got != *count {
            return Err(format!("{} samples played at {} Hz instead of {}", got, f, count));
        }
        let half = RATE / *f as f64 / 2.0;
        let top = samples[at];
        for (i, v) in samples[at..at + count].iter().enumerate() {
            // Skip the samples that are too close to a change.
            let phase = i as f64 / half;
            if (phase - phase.round()).abs() < 1e-6 && i > 0 {
                continue;
            }
            let up = phase.floor() as u64 % 2 == 0;
            if *v != if up { top } else { -top } {
                return Err(format!("sample {} at {} Hz is {}", i, f, v));
            }
        }
        if top < 1000 {
            return Err(format!("volume is {}", top));
        }
        at += count;
        case.nontrivial |= *count > 3;
    }
    match samples[at..].iter().find(|v| **v != 0) {
        Some(v) => Err(format!("{} is played after the last tone", v)),
        None => Ok(()),
    }
}

/// Specifications that must be rejected.
fn bad_spec(s: &mut Src, case: &mut Case) -> CaseResult {
    let (spec, want) = *s.pick(&[
        ("sdl:resolution=20", "Invalid console flag resolution"),
        ("sdl:resolution=0x20", "Invalid console flag resolution"),
        ("sdl:resolution=20x", "Invalid console flag resolution"),
        ("sdl:resolution=20x-1", "Invalid console flag resolution"),
        ("sdl:fg_color=256", "Invalid console flag fg_color: number too large to fit in target type"),
        ("sdl:bg_color=red", "Invalid console flag bg_color: invalid digit found in string"),
        ("sdl:font=vga", "font"),
        ("sdl:resolution=20x20,wide", "Console driver sdl does not recognize flags: wide"),
    ]);
    case.label("bad specification");
    case.set_text(format!("--console={}\n", spec));
    match Win::open(spec) {
        Ok(_) => Err("accepted".to_owned()),
        Err(e) if e.contains(want) => Ok(()),
        Err(e) => Err(format!("fails with {:?}", e)),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U08",
        rule: "at least 5 operations on the console, a shape that covers at least 4 pixels, 4 keys delivered, or 4 samples of sound played",
        quick: 8_000,
        thorough: 150_000,
        run: sdl,
        assumptions: &[
            "the window is SDL's surface in its driver without a display",
            "lines that are clipped are drawn within two pixels and a half of the segment, and single points may be missing",
            "what is drawn under a visible cursor is not specified until overwritten",
        ],
    }]
}
