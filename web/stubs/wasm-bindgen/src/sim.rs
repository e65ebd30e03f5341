//! The simulated browser: clocks, events, local storage and the pixels of canvases.

use crate::{Callback, JsValue};
use std::cell::RefCell;

/// A tone requested by the page.
#[derive(Clone, Debug, PartialEq)]
pub struct Played {
    pub hz: f32,
    pub shape: String,
    pub started: f64,
    pub stopped: Option<f64>,
    pub connected: bool,
}

/// Order in which the local storage enumerates its keys, which browsers are free to choose.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum KeyOrder {
    #[default]
    Insertion,
    Sorted,
    Hashed,
}

#[derive(Default)]
pub struct Browser {
    /// Monotonic time, in milliseconds.
    pub now: f64,
    /// How much time passes each time that the page looks at the clock.
    pub tick: f64,
    /// Time of day, in milliseconds since the epoch.
    pub date: f64,
    /// Offset of the time zone in minutes, positive towards the west.
    pub tz: f64,
    pub href: String,
    pub order: KeyOrder,
    pub stored: Vec<(String, String)>,
    /// Number of changes made to the local storage.
    pub writes: u64,
    /// How many more values can be stored before the storage is full.
    pub capacity: Option<u64>,
    pub played: Vec<Played>,
    pub logged: Vec<String>,
    /// Misuses of the browser's interfaces.
    pub faults: Vec<String>,
    /// Time when the page last let the browser run, and the longest it took to do so.
    pub resumed: f64,
    pub longest: f64,
    /// When something was first drawn since the browser last ran, and the longest that drawings took
    /// to show.
    pub drawn: Option<f64>,
    pub hidden: f64,
    /// Delays requested, in milliseconds.
    pub waits: Vec<i32>,
    timers: Vec<(f64, JsValue)>,
    frames: Vec<JsValue>,
    messages: Vec<(JsValue, JsValue)>,
    /// Events processed.
    pub frames_run: u64,
    pub messages_run: u64,
    pub timers_run: u64,
}

thread_local! {
    static BROWSER: RefCell<Browser> = RefCell::default();
}

/// Accesses the browser of the current thread.
pub fn with<T>(f: impl FnOnce(&mut Browser) -> T) -> T {
    BROWSER.with(|b| f(&mut b.borrow_mut()))
}

/// Records a call to an imported function.
pub fn imported(name: &str, args: &[&str]) {
    let _ = with(|b| b.logged.push(format!("{}: {}", name, args.join(", "))));
}

/// Duration of a frame.
const FRAME: f64 = 1000.0 / 60.0;

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
}

impl Browser {
    /// Reads the monotonic clock.
    pub fn clock(&mut self) -> f64 {
        self.now += self.tick;
        self.now
    }

    pub fn add_timer(&mut self, ms: i32, f: JsValue) -> i32 {
        self.waits.push(ms);
        self.timers.push((self.now + f64::from(ms.max(0)), f));
        self.timers.len() as i32
    }

    pub fn add_frame(&mut self, f: JsValue) -> i32 {
        self.frames.push(f);
        self.frames.len() as i32
    }

    pub fn add_message(&mut self, handler: JsValue, event: JsValue) {
        self.messages.push((handler, event));
    }

    /// Index of a key in the enumeration of the local storage.
    pub fn key_at(&self, i: u32) -> Option<String> {
        let mut keys: Vec<&String> = self.stored.iter().map(|(k, _)| k).collect();
        match self.order {
            KeyOrder::Insertion => (),
            KeyOrder::Sorted => keys.sort(),
            KeyOrder::Hashed => keys.sort_by_key(|k| (hash(k), k.to_string())),
        }
        keys.get(i as usize).map(|s| s.to_string())
    }

    pub fn get_item(&self, key: &str) -> Option<String> {
        self.stored.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())
    }

    pub fn set_item(&mut self, key: &str, value: &str) -> Result<(), JsValue> {
        if let Some(n) = &mut self.capacity {
            if *n == 0 {
                return Err(JsValue::from_str("QuotaExceededError"));
            }
            *n -= 1;
        }
        self.writes += 1;
        match self.stored.iter_mut().find(|(k, _)| k == key) {
            Some((_, v)) => *v = value.to_owned(),
            None => self.stored.push((key.to_owned(), value.to_owned())),
        }
        Ok(())
    }

    pub fn remove_item(&mut self, key: &str) {
        self.writes += 1;
        self.stored.retain(|(k, _)| k != key);
    }

    /// Discards the events of a page that goes away.
    pub fn unload(&mut self) {
        self.timers.clear();
        self.frames.clear();
        self.messages.clear();
    }
}

fn call(f: &JsValue, arg: JsValue) {
    match f.native::<Callback>() {
        Some(c) => {
            if !c.call(arg) {
                with(|b| b.faults.push("Call to a closure that no longer exists".to_owned()));
            }
        }
        None => with(|b| b.faults.push("Call to something that is not a function".to_owned())),
    }
}

/// Lets the browser process pending events once the page has returned to it.  Returns false if
/// there were none.
pub fn host_turn() -> bool {
    let pending = with(|b| {
        b.longest = b.longest.max(b.now - b.resumed);
        if let Some(drawn) = b.drawn.take() {
            b.hidden = b.hidden.max(b.now - drawn);
        }
        if !b.messages.is_empty() {
            b.messages_run += 1;
            return Some(b.messages.remove(0));
        }
        // Each frame shows what was drawn before it.
        let next_timer = b.timers.iter().map(|t| t.0).fold(f64::INFINITY, f64::min);
        let next_frame = if b.frames.is_empty() {
            f64::INFINITY
        } else {
            (b.now / FRAME).floor() * FRAME + FRAME
        };
        if next_frame < next_timer {
            b.now = b.now.max(next_frame);
            b.frames_run += 1;
            let now = b.now;
            return Some((b.frames.remove(0), JsValue::from_f64(now)));
        }
        if next_timer.is_finite() {
            b.now = b.now.max(next_timer);
            b.timers_run += 1;
            let i = b.timers.iter().position(|t| t.0 == next_timer).unwrap();
            return Some((b.timers.remove(i).1, JsValue::UNDEFINED));
        }
        None
    });
    let some = match pending {
        Some((f, arg)) => {
            call(&f, arg);
            true
        }
        None => false,
    };
    with(|b| b.resumed = b.now);
    some
}

pub type Rgb = (u8, u8, u8);

/// The pixels of a canvas, without transparency nor antialiasing.
#[derive(Clone, PartialEq)]
pub struct Raster {
    pub w: i32,
    pub h: i32,
    pub px: Vec<Rgb>,
}

impl Raster {
    pub fn new(w: i32, h: i32) -> Self {
        Raster { w, h, px: vec![(0, 0, 0); (w * h) as usize] }
    }

    pub fn get(&self, x: i32, y: i32) -> Rgb {
        if x < 0 || y < 0 || x >= self.w || y >= self.h {
            return (0, 0, 0);
        }
        self.px[(y * self.w + x) as usize]
    }

    pub fn set(&mut self, x: i32, y: i32, c: Rgb) {
        if x >= 0 && y >= 0 && x < self.w && y < self.h {
            self.px[(y * self.w + x) as usize] = c;
        }
    }

    pub fn fill_rect(&mut self, x: i32, y: i32, w: i32, h: i32, c: Rgb) {
        for y in y.max(0)..(y + h).min(self.h) {
            for x in x.max(0)..(x + w).min(self.w) {
                self.px[(y * self.w + x) as usize] = c;
            }
        }
    }

    pub fn crop(&self, x: i32, y: i32, w: i32, h: i32) -> Raster {
        let mut r = Raster::new(w, h);
        for j in 0..h {
            for i in 0..w {
                r.px[(j * w + i) as usize] = self.get(x + i, y + j);
            }
        }
        r
    }

    pub fn paste(&mut self, x: i32, y: i32, r: &Raster) {
        for j in 0..r.h {
            for i in 0..r.w {
                self.set(x + i, y + j, r.px[(j * r.w + i) as usize]);
            }
        }
    }

    pub fn line(&mut self, a: (i32, i32), b: (i32, i32), c: Rgb) {
        // Always in the same direction, so that lines do not depend on the order of their ends.
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let n = (b.0 - a.0).abs().max((b.1 - a.1).abs());
        if n == 0 {
            self.set(a.0, a.1, c);
            return;
        }
        for i in 0..=n {
            let at = |p: i32, q: i32| {
                let d = i64::from(q - p) * i64::from(i) * 2 + i64::from(n);
                p + d.div_euclid(2 * i64::from(n)) as i32
            };
            let (x, y) = (at(a.0, b.0), at(a.1, b.1));
            self.set(x, y, c);
        }
    }

    pub fn poly(&mut self, points: &[(i32, i32)], closed: bool, c: Rgb) {
        for p in points.windows(2) {
            self.line(p[0], p[1], c);
        }
        if closed && points.len() > 1 {
            self.line(points[0], points[points.len() - 1], c);
        }
    }

    /// Fills a polygon by the nonzero winding rule, along with its outline.
    pub fn poly_filled(&mut self, points: &[(i32, i32)], c: Rgb) {
        if points.is_empty() {
            return;
        }
        let bound = |v: i32, m: i32| v.clamp(0, m);
        let y1 = bound(points.iter().map(|p| p.1).min().unwrap(), self.h);
        let y2 = bound(points.iter().map(|p| p.1).max().unwrap() + 1, self.h);
        for y in y1..y2 {
            // Crossings with the horizontal line through the middle of the row, doubled.
            let mut at = vec![];
            for i in 0..points.len() {
                let (p, q) = (points[i], points[(i + 1) % points.len()]);
                let mid = 2 * i64::from(y) + 1;
                let (py, qy) = (2 * i64::from(p.1), 2 * i64::from(q.1));
                if (py < mid) != (qy < mid) {
                    let x = f64::from(p.0)
                        + (mid - py) as f64 / (qy - py) as f64 * f64::from(q.0 - p.0);
                    at.push((x, if py < mid { 1 } else { -1 }));
                }
            }
            at.sort_by(|a, b| a.0.total_cmp(&b.0));
            let mut winding = 0;
            for k in 0..at.len() {
                winding += at[k].1;
                if winding != 0 && k + 1 < at.len() {
                    let from = (at[k].0.ceil() as i32).max(0);
                    let to = (at[k + 1].0.floor() as i32).min(self.w - 1);
                    for x in from..=to {
                        self.set(x, y, c);
                    }
                }
            }
        }
        self.poly(points, true, c);
    }

    pub fn circle(&mut self, x: i32, y: i32, r: i32, filled: bool, c: Rgb) {
        let r64 = i64::from(r);
        for j in (y - r).max(0)..(y + r + 1).min(self.h) {
            for i in (x - r).max(0)..(x + r + 1).min(self.w) {
                let (dx, dy) = (i64::from(i - x), i64::from(j - y));
                let d = dx * dx + dy * dy;
                let inside = d <= r64 * r64 + r64;
                if inside && (filled || d > r64 * r64 - r64) {
                    self.set(i, j, c);
                }
            }
        }
    }
}
