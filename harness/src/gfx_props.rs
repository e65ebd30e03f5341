//! Properties of the graphical console: text, drawing and buffering, down to the pixels of a
//! (simulated) screen.

use crate::engine::*;
use async_trait::async_trait;
use endbasic_std::MachineBuilder;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16, Font};
use endbasic_std::gfx::lcd::{AsByteSlice, BufferedLcd, Lcd, LcdSize, LcdXY};
use endbasic_std::sound::NoopAudioOps;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

// ---- A screen in memory

#[derive(Clone, Copy)]
pub struct Px([u8; 3]);

impl AsByteSlice for Px {
    fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

/// What the screen shows.
pub struct Screen {
    pub w: usize,
    pub h: usize,
    pub data: Vec<RGB>,
    pub bad: Vec<String>,
}

pub struct MemLcd(Rc<RefCell<Screen>>);

impl Lcd for MemLcd {
    type Pixel = Px;
    fn info(&self) -> (LcdSize, usize) {
        let s = self.0.borrow();
        (LcdSize { width: s.w, height: s.h }, 3)
    }
    fn decode(&self, p: &[u8]) -> RGB {
        (p[0], p[1], p[2])
    }
    fn encode(&self, rgb: RGB) -> Px {
        Px([rgb.0, rgb.1, rgb.2])
    }
    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        if b.x < a.x || b.y < a.y || b.x >= s.w || b.y >= s.h {
            s.bad.push(format!("window {},{} to {},{} out of range", a.x, a.y, b.x, b.y));
            return Ok(());
        }
        let (w, h) = (b.x - a.x + 1, b.y - a.y + 1);
        if data.len() != w * h * 3 {
            s.bad.push(format!("{} bytes for a window of {}x{}", data.len(), w, h));
            return Ok(());
        }
        for (i, p) in data.chunks(3).enumerate() {
            let at = (a.y + i / w) * s.w + a.x + i % w;
            s.data[at] = (p[0], p[1], p[2]);
        }
        Ok(())
    }
}

pub struct NoInput;

#[async_trait(?Send)]
impl InputOps for NoInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(Key::EofOrDelete)
    }
}

pub type Gfx = GraphicsConsole<NoInput, BufferedLcd<MemLcd>, NoopAudioOps>;

pub fn gfx(w: usize, h: usize, font: &'static Font, fg: Option<u8>, bg: Option<u8>) -> (Gfx, Rc<RefCell<Screen>>) {
    let screen = Rc::new(RefCell::new(Screen { w, h, data: vec![(1, 2, 3); w * h], bad: vec![] }));
    let lcd = BufferedLcd::new(MemLcd(screen.clone()), font);
    (GraphicsConsole::new(NoInput, lcd, NoopAudioOps, fg, bg).unwrap(), screen)
}

/// The usual palette of 256 colors of terminals: 16 named ones, a cube of 6 levels and 24 greys.
pub fn palette(c: u8) -> RGB {
    const LEVELS: [u8; 6] = [0, 95, 135, 175, 215, 255];
    match c {
        7 => (192, 192, 192),
        8 => (128, 128, 128),
        0..=6 | 9..=15 => {
            let v = if c < 8 { 128 } else { 255 };
            let bit = |n: u8| if c & n != 0 { v } else { 0 };
            (bit(1), bit(2), bit(4))
        }
        16..=231 => {
            let i = (c - 16) as usize;
            (LEVELS[i / 36], LEVELS[i / 6 % 6], LEVELS[i % 6])
        }
        _ => {
            let v = 8 + 10 * (c - 232);
            (v, v, v)
        }
    }
}

// ---- U02: text on the graphical console

/// A pixel is `None` if its contents are not specified.
type Pix = Option<RGB>;

struct Model {
    w: i32,
    h: i32,
    font: &'static Font,
    gw: i32,
    gh: i32,
    cols: i32,
    rows: i32,
    base: Vec<Pix>,
    front: Vec<Pix>,
    x: i32,
    y: i32,
    visible: bool,
    cursor: RGB,
    fg: Option<u8>,
    bg: Option<u8>,
    def: (u8, u8),
    quant: fn(RGB) -> RGB,
    sync: bool,
    #[allow(clippy::type_complexity)]
    alt: Option<(Vec<Pix>, i32, i32, Option<u8>, Option<u8>)>,
}

impl Model {
    fn fgc(&self) -> RGB {
        (self.quant)(palette(self.fg.unwrap_or(self.def.0)))
    }
    fn bgc(&self) -> RGB {
        (self.quant)(palette(self.bg.unwrap_or(self.def.1)))
    }
    fn rect(&mut self, x: i32, y: i32, w: i32, h: i32, c: RGB) {
        for yy in y.max(0)..(y + h).min(self.h) {
            for xx in x.max(0)..(x + w).min(self.w) {
                self.base[(yy * self.w + xx) as usize] = Some(c);
            }
        }
    }
    /// Whether the cursor covers the pixel.
    fn covered(&self, x: i32, y: i32) -> bool {
        self.visible && self.x < self.cols && x / self.gw == self.x && y / self.gh == self.y
    }
    fn shown(&self) -> Vec<Pix> {
        let mut v = self.base.clone();
        for y in 0..self.h {
            for x in 0..self.w {
                let p = &mut v[(y * self.w + x) as usize];
                if self.covered(x, y) && p.is_some() {
                    *p = Some(self.cursor);
                }
            }
        }
        v
    }
    fn newline(&mut self) {
        self.x = 0;
        if self.y < self.rows - 1 {
            self.y += 1;
            return;
        }
        let bg = self.bgc();
        for y in 0..self.h {
            for x in 0..self.w {
                let from = y + self.gh;
                self.base[(y * self.w + x) as usize] =
                    if from < self.rows * self.gh { self.base[(from * self.w + x) as usize] } else { Some(bg) };
            }
        }
    }
    fn put(&mut self, text: &str) {
        for c in text.chars() {
            let c = if c.is_control() { ' ' } else { c };
            if self.x == self.cols {
                self.newline();
            }
            let (ox, oy) = (self.x * self.gw, self.y * self.gh);
            let (fg, bg) = (self.fgc(), self.bgc());
            self.rect(ox, oy, self.gw, self.gh, bg);
            let c = if (' '..='~').contains(&c) { c } else { '?' };
            let g = (c as usize - 32) * self.gh as usize * self.font.stride;
            for y in 0..self.gh {
                for x in 0..self.gw {
                    let b = self.font.data[g + y as usize * self.font.stride + (x / 8) as usize];
                    if b & (0x80 >> (x % 8)) != 0 {
                        self.rect(ox + x, oy + y, 1, 1, fg);
                    }
                }
            }
            self.x += 1;
        }
    }
    /// A pixel drawn by a graphics operation.
    fn dot(&mut self, x: i32, y: i32, c: RGB) {
        if x < 0 || y < 0 || x >= self.w || y >= self.h {
            return;
        }
        let hidden = self.covered(x, y);
        self.base[(y * self.w + x) as usize] = if hidden { None } else { Some(c) };
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Print(String),
    Write(String),
    Color(Option<u8>, Option<u8>),
    Clear(ClearType),
    Locate(u16, u16),
    Move(i16),
    Hide,
    Show,
    EnterAlt,
    LeaveAlt,
    Sync(bool),
    SyncNow,
    Pixel(i16, i16),
    Line(i16, i16, i16, bool),
    Rectf(i16, i16, i16, i16),
    Fill(i16, i16),
}

const TEXT: &[char] = &['a', 'W', '.', '0', '~', ' ', '#', 'é', '日', '\t', '\n', '\u{7f}'];

pub fn some_color(s: &mut Src) -> Option<u8> {
    match s.range(0, 3) {
        0 => None,
        1 => Some(s.range(0, 255) as u8),
        _ => Some(s.range(0, 15) as u8),
    }
}

fn some_text(s: &mut Src, cols: i64) -> String {
    let n = match s.range(0, 4) {
        0 => cols * s.range(0, 3),
        1 => cols + s.range(-1, 1),
        _ => s.range(0, cols / 2 + 1),
    };
    (0..n.max(0)).map(|_| *s.pick(TEXT)).collect()
}

pub const FONTS: &[&Font] = &[&FONT_5X8, &FONT_VGA8X16, &FONT_16X16];

fn compare(what: &str, want: &[Pix], got: impl Fn(usize) -> RGB, w: i32) -> CaseResult {
    for (i, p) in want.iter().enumerate() {
        if let Some(p) = p {
            if *p != got(i) {
                let (x, y) = (i as i32 % w, i as i32 / w);
                return Err(format!("{}: pixel {},{} is {:?} instead of {:?}", what, x, y, got(i), p));
            }
        }
    }
    Ok(())
}

/// Generates operations for a console of the given size in pixels and characters.
pub fn console_ops(s: &mut Src, (w, h): (i64, i64), (cols, rows): (i64, i64)) -> Vec<Op> {
    let n = s.range(1, 25);
    let mut ops = vec![];
    let xy = |s: &mut Src| (s.range(-3, w + 3) as i16, s.range(-3, h + 3) as i16);
    for _ in 0..n {
        ops.push(match s.weighted(&[6, 6, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => Op::Write(some_text(s, cols)),
            1 => Op::Print(some_text(s, cols)),
            2 => Op::Color(some_color(s), some_color(s)),
            3 => Op::Clear(
                s.pick(&[ClearType::UntilNewLine, ClearType::PreviousChar, ClearType::CurrentLine, ClearType::All]).clone(),
            ),
            4 => Op::Locate(s.range(0, cols - 1) as u16, s.range(0, rows - 1) as u16),
            5 => Op::Move(s.range(-cols, cols) as i16),
            6 => Op::Hide,
            7 => Op::Show,
            8 => Op::EnterAlt,
            9 => Op::LeaveAlt,
            10 => Op::Sync(s.chance(1, 2)),
            11 => Op::SyncNow,
            12 => {
                let (x, y) = xy(s);
                Op::Pixel(x, y)
            }
            13 => {
                let (x, y) = xy(s);
                Op::Line(x, y, s.range(-20, 20) as i16, s.chance(1, 2))
            }
            14 => {
                let (x, y) = xy(s);
                Op::Rectf(x, y, s.range(-15, 15) as i16, s.range(-15, 15) as i16)
            }
            _ => {
                let (x, y) = xy(s);
                Op::Fill(x, y)
            }
        });
    }
    ops
}

/// A check of shapes on a console other than the one in memory: `start` creates the console for a screen of the given
/// size and a function that looks at it.
pub type Look = Box<dyn Fn() -> Result<Vec<RGB>, String>>;

fn graphics_console(s: &mut Src, case: &mut Case) -> CaseResult {
    let font = FONTS[s.weighted(&[6, 1, 1])];
    let (gw, gh) = (font.glyph_size.width as i64, font.glyph_size.height as i64);
    let (cols, rows) = (s.range(2, 6), s.range(2, 4));
    let (w, h) = (cols * gw + s.range(0, gw - 1), rows * gh + s.range(0, gh - 1));
    let def = (some_color(s), some_color(s));
    let ops = console_ops(s, (w, h), (cols, rows));
    let (mut con, screen) = gfx(w as usize, h as usize, font, def.0, def.1);
    let look = || {
        let sc = screen.borrow();
        match sc.bad.first() {
            Some(b) => Err(b.clone()),
            None => Ok(sc.data.clone()),
        }
    };
    follow(case, font, (w, h), def, &ops, &mut con, &look, |c| c)
}

/// Executes `ops` on a console and on a model of it, comparing what they show. `look` returns the contents of the
/// screen and `quant` returns the color that the screen shows for another one.
#[allow(clippy::too_many_arguments)]
pub fn follow(
    case: &mut Case,
    font: &'static Font,
    (w, h): (i64, i64),
    def: (Option<u8>, Option<u8>),
    ops: &[Op],
    con: &mut dyn Console,
    look: &dyn Fn() -> Result<Vec<RGB>, String>,
    quant: fn(RGB) -> RGB,
) -> CaseResult {
    let (gw, gh) = (font.glyph_size.width as i64, font.glyph_size.height as i64);
    let (cols, rows) = (w / gw, h / gh);
    let mut text = case.text.clone();
    text += &format!("{}x{} pixels, font {}, default colors {:?}\n", w, h, font.name, def);
    ops.iter().for_each(|o| text += &format!("{:?}\n", o));
    case.set_text(text);

    let mut m = Model {
        w: w as i32,
        h: h as i32,
        font,
        gw: gw as i32,
        gh: gh as i32,
        cols: cols as i32,
        rows: rows as i32,
        base: vec![],
        front: vec![],
        x: 0,
        y: 0,
        visible: true,
        cursor: (0, 0, 0),
        fg: None,
        bg: None,
        def: (def.0.unwrap_or(7), def.1.unwrap_or(0)),
        quant,
        sync: true,
        alt: None,
    };
    m.base = vec![Some(m.bgc()); (w * h) as usize];
    m.cursor = m.fgc();
    let size = con.size_chars().unwrap();
    if (size.x as i64, size.y as i64) != (cols, rows) {
        return Err(format!("size is {:?}", size));
    }
    let (sp, gs) = (con.size_pixels().unwrap(), con.glyph_size().unwrap());
    if (sp.width as i64, sp.height as i64, gs.width as i64, gs.height as i64) != (w, h, gw, gh) {
        return Err(format!("sizes are {:?} and {:?}", sp, gs));
    }
    let mut scrolled = 0;
    for (i, op) in std::iter::once(None).chain(ops.iter().map(Some)).enumerate() {
        let at = format!("after {:?} (step {})", op, i);
        // Whether the operation redraws the cursor.
        let mut redraw = true;
        let mut want_err = false;
        let r = match op {
            None => Ok(()),
            Some(Op::Write(t)) | Some(Op::Print(t)) => {
                let before = (m.y, m.x);
                m.put(t);
                if let Some(Op::Print(_)) = op {
                    m.newline();
                }
                if m.y == m.rows - 1 && before.0 == m.y && (m.x <= before.1) {
                    scrolled += 1;
                }
                if m.x == m.cols {
                    case.label("cursor past the last column");
                }
                if let Some(Op::Print(_)) = op { con.print(t) } else { con.write(t) }
            }
            Some(Op::Color(fg, bg)) => {
                m.fg = *fg;
                m.bg = *bg;
                redraw = false;
                con.set_color(*fg, *bg)
            }
            Some(Op::Clear(how)) => {
                let bg = m.bgc();
                match how {
                    ClearType::All => {
                        (m.x, m.y) = (0, 0);
                        let (w, h) = (m.w, m.h);
                        m.rect(0, 0, w, h, bg);
                    }
                    ClearType::CurrentLine => {
                        m.x = 0;
                        let (y, w, gh) = (m.y * m.gh, m.w, m.gh);
                        m.rect(0, y, w, gh, bg);
                    }
                    ClearType::PreviousChar => {
                        if m.x > 0 {
                            m.x -= 1;
                            let (x, y, gw, gh) = (m.x * m.gw, m.y * m.gh, m.gw, m.gh);
                            m.rect(x, y, gw, gh, bg);
                        } else {
                            case.label("no previous character");
                        }
                    }
                    ClearType::UntilNewLine => {
                        if m.x == m.cols {
                            case.label("clear past the last column");
                        }
                        let (x, y, w, gh) = (m.x * m.gw, m.y * m.gh, m.w, m.gh);
                        m.rect(x, y, w, gh, bg);
                    }
                }
                con.clear(how.clone())
            }
            Some(Op::Locate(x, y)) => {
                (m.x, m.y) = (*x as i32, *y as i32);
                con.locate(CharsXY::new(*x, *y))
            }
            Some(Op::Move(off)) => {
                let to = (m.x + *off as i32).clamp(0, m.cols - 1);
                let off = (to - m.x) as i16;
                m.x = to;
                con.move_within_line(off)
            }
            Some(Op::Hide) => {
                m.visible = false;
                con.hide_cursor()
            }
            Some(Op::Show) => {
                redraw = !m.visible;
                m.visible = true;
                con.show_cursor()
            }
            Some(Op::EnterAlt) => {
                if m.alt.is_some() {
                    want_err = true;
                    redraw = false;
                } else {
                    m.alt = Some((m.base.clone(), m.x, m.y, m.fg, m.bg));
                    (m.x, m.y) = (0, 0);
                    let (w, h, bg) = (m.w, m.h, m.bgc());
                    m.rect(0, 0, w, h, bg);
                }
                con.enter_alt()
            }
            Some(Op::LeaveAlt) => {
                match m.alt.take() {
                    None => {
                        want_err = true;
                        redraw = false;
                    }
                    Some((base, x, y, fg, bg)) => {
                        (m.base, m.x, m.y, m.fg, m.bg) = (base, x, y, fg, bg);
                        case.label("alternate screen");
                    }
                }
                con.leave_alt()
            }
            Some(Op::Sync(on)) => {
                let was = std::mem::replace(&mut m.sync, *on);
                redraw = false;
                con.set_sync(*on).map(|p| assert_eq!(was, p, "previous sync status"))
            }
            Some(Op::SyncNow) => {
                redraw = false;
                m.front = m.shown();
                con.sync_now()
            }
            Some(Op::Pixel(x, y)) => {
                redraw = false;
                let c = m.fgc();
                m.dot(*x as i32, *y as i32, c);
                con.draw_pixel(PixelsXY::new(*x, *y))
            }
            Some(Op::Line(x, y, len, vert)) => {
                redraw = false;
                let c = m.fgc();
                let (x, y, len) = (*x as i32, *y as i32, *len as i32);
                for d in len.min(0)..=len.max(0) {
                    if *vert { m.dot(x, y + d, c) } else { m.dot(x + d, y, c) }
                }
                let to = if *vert { (x, y + len) } else { (x + len, y) };
                con.draw_line(PixelsXY::new(x as i16, y as i16), PixelsXY::new(to.0 as i16, to.1 as i16))
            }
            Some(Op::Rectf(x, y, dx, dy)) => {
                redraw = false;
                let c = m.fgc();
                let (x, y, dx, dy) = (*x as i32, *y as i32, *dx as i32, *dy as i32);
                let (xs, ys) = if dx == 0 || dy == 0 {
                    (x.min(x + dx)..=x.max(x + dx), y.min(y + dy)..=y.max(y + dy))
                } else {
                    (x.min(x + dx)..=x.max(x + dx) - 1, y.min(y + dy)..=y.max(y + dy) - 1)
                };
                for yy in ys {
                    for xx in xs.clone() {
                        m.dot(xx, yy, c);
                    }
                }
                con.draw_rect_filled(
                    PixelsXY::new(x as i16, y as i16),
                    PixelsXY::new((x + dx) as i16, (y + dy) as i16),
                )
            }
            Some(Op::Fill(x, y)) => {
                let shown = m.shown();
                if m.visible || shown.iter().any(|p| p.is_none()) {
                    continue;
                }
                case.label("fill");
                redraw = false;
                let c = m.fgc();
                let (sx, sy) = (*x as i32, *y as i32);
                if sx >= 0 && sy >= 0 && sx < m.w && sy < m.h {
                    let seed = shown[(sy * m.w + sx) as usize];
                    if seed != Some(c) {
                        let mut queue = VecDeque::from([(sx, sy)]);
                        while let Some((x, y)) = queue.pop_front() {
                            if x < 0 || y < 0 || x >= m.w || y >= m.h || m.base[(y * m.w + x) as usize] != seed {
                                continue;
                            }
                            m.dot(x, y, c);
                            queue.extend([(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)]);
                        }
                    }
                }
                con.bucket_fill(PixelsXY::new(*x, *y))
            }
        };
        if redraw {
            m.cursor = m.fgc();
        }
        if m.sync {
            m.front = m.shown();
        }
        match r {
            Ok(()) if want_err => return Err(format!("{}: did not fail", at)),
            Err(e) if !want_err => return Err(format!("{}: failed: {}", at, e)),
            _ => (),
        }
        if con.color() != (m.fg, m.bg) {
            return Err(format!("{}: color is {:?}", at, con.color()));
        }
        let sc = look().map_err(|e| format!("{}: {}", at, e))?;
        compare(&format!("{}: on the screen", at), &m.front, |i| sc[i], m.w)?;
        // Pixels read are those drawn, even if not on the screen yet.
        let shown = m.shown();
        let probe = [(0, 0), (m.x * m.gw, m.y * m.gh), (m.w - 1, m.h - 1), (m.w / 2, m.h / 3), (m.w, 0), (0, -1), (-1, m.h)];
        for (x, y) in probe {
            let inside = x >= 0 && y >= 0 && x < m.w && y < m.h;
            let got = con.peek_pixel(PixelsXY::new(x as i16, y as i16)).unwrap();
            if !inside {
                if got.is_some() {
                    return Err(format!("{}: pixel {},{} outside is {:?}", at, x, y, got));
                }
            } else if let Some(want) = shown[(y * m.w + x) as usize] {
                if got.map(|c| quant(palette(c))) != Some(want) {
                    return Err(format!("{}: peek of {},{} is {:?} instead of {:?}", at, x, y, got, want));
                }
            }
        }
    }
    if scrolled > 0 {
        case.label("scrolled");
    }
    if !m.sync {
        case.label("not synced at the end");
    }
    case.nontrivial = ops.len() >= 5;
    Ok(())
}

// ---- U03: shapes

type P = (i32, i32);

/// Shapes drawn by programs.
#[derive(Clone, Debug)]
enum Shape {
    Pixel(P),
    Line(P, P),
    Rect(P, P, bool),
    Circle(P, i32, bool),
    /// Polygon; triangle commands are used if asked to and there are three points.
    Poly(Vec<P>, bool, Form),
    Fill(P),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Tri,
    List,
    Flat,
    Matrix,
}

fn list(points: &[P]) -> String {
    points.iter().map(|p| format!("{}, {}", p.0, p.1)).collect::<Vec<_>>().join(", ")
}

impl Shape {
    fn code(&self, id: usize) -> String {
        let f = |filled: bool| if filled { "F" } else { "" };
        match self {
            Shape::Pixel(p) => format!("GFX_PIXEL {}, {}\n", p.0, p.1),
            Shape::Line(p, q) => format!("GFX_LINE {}\n", list(&[*p, *q])),
            Shape::Rect(p, q, fi) => format!("GFX_RECT{} {}\n", f(*fi), list(&[*p, *q])),
            Shape::Circle(p, r, fi) => format!("GFX_CIRCLE{} {}, {}\n", f(*fi), list(&[*p]), r),
            Shape::Poly(ps, fi, Form::Tri) => format!("GFX_TRI{} {}\n", f(*fi), list(ps)),
            Shape::Poly(ps, fi, Form::List) => format!("GFX_POLY{} {}\n", f(*fi), list(ps)),
            Shape::Poly(ps, fi, Form::Flat) => {
                let mut t = format!("DIM A{}({}) AS INTEGER\n", id, ps.len() * 2);
                for (i, p) in ps.iter().enumerate() {
                    t += &format!("A{}({}) = {}: A{}({}) = {}\n", id, 2 * i, p.0, id, 2 * i + 1, p.1);
                }
                t + &format!("GFX_POLY{} A{}\n", f(*fi), id)
            }
            Shape::Poly(ps, fi, Form::Matrix) => {
                let mut t = format!("DIM A{}({}, 2) AS INTEGER\n", id, ps.len());
                for (i, p) in ps.iter().enumerate() {
                    t += &format!("A{}({}, 0) = {}: A{}({}, 1) = {}\n", id, i, p.0, id, i, p.1);
                }
                t + &format!("GFX_POLY{} A{}\n", f(*fi), id)
            }
            Shape::Fill(p) => format!("GFX_FILL {}, {}\n", p.0, p.1),
        }
    }

    /// The outcome of checking the arguments.
    fn error(&self) -> Option<String> {
        let bad = |ps: &[P]| {
            ps.iter()
                .flat_map(|p| [p.0, p.1])
                .find(|c| *c < i16::MIN as i32 || *c > i16::MAX as i32)
                .map(|c| format!("Coordinate {} out of range", c))
        };
        match self {
            Shape::Pixel(p) | Shape::Fill(p) => bad(&[*p]),
            Shape::Line(p, q) | Shape::Rect(p, q, _) => bad(&[*p, *q]),
            Shape::Poly(ps, _, _) => bad(ps),
            Shape::Circle(p, r, _) => bad(&[*p]).or_else(|| {
                if *r < 0 {
                    Some(format!("Radius {} must be positive", r))
                } else if *r > u16::MAX as i32 {
                    Some(format!("Radius {} out of range", r))
                } else if *r > 16383 {
                    Some("Radius is too big".to_owned())
                } else {
                    None
                }
            }),
        }
    }
}

/// What must and may be drawn by a shape at each pixel of the screen.
struct Spec {
    w: i32,
    h: i32,
    must: Vec<bool>,
    may: Vec<bool>,
    /// Lines that need clipping can be off by a pixel and single points may be missing.
    loose: bool,
}

impl Spec {
    fn new(w: i32, h: i32) -> Self {
        Spec { w, h, must: vec![false; (w * h) as usize], may: vec![false; (w * h) as usize], loose: false }
    }
    fn at(&self, x: i32, y: i32) -> Option<usize> {
        (x >= 0 && y >= 0 && x < self.w && y < self.h).then(|| (y * self.w + x) as usize)
    }
    fn must(&mut self, x: i32, y: i32) {
        if let Some(i) = self.at(x, y) {
            self.must[i] = true;
            self.may[i] = true;
        }
    }
    /// The pixels closest to a line: those whose center is within half a pixel of it along the
    /// axis in which the line advances the least.
    fn line(&mut self, p: P, q: P) {
        let (dx, dy) = ((q.0 - p.0) as i64, (q.1 - p.1) as i64);
        if p == q {
            if self.loose {
                if let Some(i) = self.at(p.0, p.1) {
                    self.may[i] = true;
                }
                return;
            }
            return self.must(p.0, p.1);
        }
        let clipped = self.loose && dx != 0 && dy != 0 && (self.at(p.0, p.1).is_none() || self.at(q.0, q.1).is_none());
        for y in p.1.min(q.1).max(0)..=p.1.max(q.1).min(self.h - 1) {
            for x in p.0.min(q.0).max(0)..=p.0.max(q.0).min(self.w - 1) {
                // Twice the distance along the minor axis times the length of the major one.
                let e = 2 * ((y - p.1) as i64 * dx - (x - p.0) as i64 * dy).abs();
                let major = dx.abs().max(dy.abs());
                let i = (y * self.w + x) as usize;
                if e < major && !clipped {
                    self.must[i] = true;
                }
                if e <= major + if clipped { 4 * major } else { 0 } {
                    self.may[i] = true;
                }
            }
        }
    }
}

fn dist_to_segment(x: f64, y: f64, p: P, q: P) -> f64 {
    let (px, py, qx, qy) = (p.0 as f64, p.1 as f64, q.0 as f64, q.1 as f64);
    let (dx, dy) = (qx - px, qy - py);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((x - px) * dx + (y - py) * dy) / l).clamp(0.0, 1.0) };
    (x - px - t * dx).hypot(y - py - t * dy)
}

/// Whether a point that is not near any edge is inside of the polygon (even-odd rule).
fn inside(x: f64, y: f64, ps: &[P]) -> bool {
    let mut r = false;
    for i in 0..ps.len() {
        let (p, q) = (ps[i], ps[(i + 1) % ps.len()]);
        let (py, qy) = (p.1 as f64, q.1 as f64);
        // Shift the ray so that it misses vertices.
        let y = y + 1e-6;
        if (py > y) != (qy > y) {
            let at = p.0 as f64 + (y - py) * (q.0 as f64 - p.0 as f64) / (qy - py);
            if x < at {
                r = !r;
            }
        }
    }
    r
}

fn collinear(ps: &[P]) -> bool {
    let d = |a: P, b: P| ((b.0 - a.0) as i64, (b.1 - a.1) as i64);
    let (u, v) = (d(ps[0], ps[1]), d(ps[0], ps[2]));
    u.0 * v.1 == u.1 * v.0
}

/// What a shape must draw, given what is on the screen.
fn spec(shape: &Shape, w: i32, h: i32, before: &[RGB], color: RGB, loose: bool) -> Spec {
    let mut sp = Spec::new(w, h);
    sp.loose = loose;
    match shape {
        Shape::Pixel(p) => sp.must(p.0, p.1),
        Shape::Line(p, q) => sp.line(*p, *q),
        Shape::Rect(p, q, filled) => {
            if p.0 == q.0 || p.1 == q.1 {
                sp.line(*p, *q);
            } else {
                let (x1, x2) = (p.0.min(q.0), p.0.max(q.0) - 1);
                let (y1, y2) = (p.1.min(q.1), p.1.max(q.1) - 1);
                for y in y1.max(0)..=y2.min(h - 1) {
                    for x in x1.max(0)..=x2.min(w - 1) {
                        if *filled || x == x1 || x == x2 || y == y1 || y == y2 {
                            sp.must(x, y);
                        }
                    }
                }
            }
        }
        Shape::Circle(c, r, filled) => {
            let rf = *r as f64;
            if *r == 1 {
                sp.must(c.0, c.1);
            }
            if *r < 2 {
                return sp;
            }
            for y in 0..h {
                for x in 0..w {
                    let d = ((x - c.0) as f64).hypot((y - c.1) as f64);
                    let i = (y * w + x) as usize;
                    if *filled {
                        sp.must[i] = d <= rf - 2.0;
                        sp.may[i] = d < rf + 0.01;
                    } else {
                        sp.may[i] = d < rf + 0.01 && d > rf - 1.9;
                    }
                }
            }
            for (x, y) in [(r - 1, 0), (1 - r, 0), (0, r - 1), (0, 1 - r)] {
                sp.must(c.0 + x, c.1 + y);
            }
        }
        Shape::Poly(ps, filled, _) => match ps.len() {
            0 => (),
            1 => sp.must(ps[0].0, ps[0].1),
            2 => sp.line(ps[0], ps[1]),
            n => {
                if (n == 3 && collinear(ps)) || ps.iter().all(|p| *p == ps[0]) {
                    return sp;
                }
                if *filled {
                    for y in 0..h {
                        for x in 0..w {
                            let (fx, fy) = (x as f64, y as f64);
                            let near = (0..n)
                                .map(|i| dist_to_segment(fx, fy, ps[i], ps[(i + 1) % n]))
                                .fold(f64::MAX, f64::min);
                            let i = (y * w + x) as usize;
                            let inn = inside(fx, fy, ps);
                            sp.may[i] = inn || near < 1.01;
                            sp.must[i] = inn && near > 1.01;
                        }
                    }
                }
                for i in 0..n {
                    sp.line(ps[i], ps[(i + 1) % n]);
                }
            }
        },
        Shape::Fill(p) => {
            let Some(i) = sp.at(p.0, p.1) else {
                return sp;
            };
            let seed = before[i];
            if seed == color {
                return sp;
            }
            let mut queue = VecDeque::from([*p]);
            while let Some((x, y)) = queue.pop_front() {
                if let Some(i) = sp.at(x, y) {
                    if before[i] == seed && !sp.must[i] {
                        sp.must(x, y);
                        queue.extend([(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)]);
                    }
                }
            }
        }
    }
    sp
}

/// Circles are symmetric and have no gaps.
fn closed_circle(c: P, r: i32, w: i32, h: i32, before: &[RGB], after: &[RGB], color: RGB) -> CaseResult {
    if !(2..200).contains(&r) {
        return Ok(());
    }
    let at = |x: i32, y: i32| (x >= 0 && y >= 0 && x < w && y < h).then(|| (y * w + x) as usize);
    for y in 0..h {
        for x in 0..w {
            let i = (y * w + x) as usize;
            if after[i] == color && before[i] != color {
                let (dx, dy) = (x - c.0, y - c.1);
                for (rx, ry) in [(dx, -dy), (-dx, dy), (-dx, -dy), (dy, dx), (dy, -dx), (-dy, dx), (-dy, -dx)] {
                    if at(c.0 + rx, c.1 + ry).is_some_and(|i| after[i] != color) {
                        return Err(format!("pixel {},{} is drawn but {},{} is not", x, y, c.0 + rx, c.1 + ry));
                    }
                }
            }
        }
    }
    // Every row and column between the ends has a pixel at either side.
    for d in 1 - r..r {
        for side in [-1, 1] {
            let ring = (0..=r).filter(|k| {
                let l = (d as f64).hypot(*k as f64);
                l < r as f64 + 0.01 && l > r as f64 - 1.9
            });
            let cells: Vec<i32> = ring.map(|k| k * side).collect();
            for swap in [false, true] {
                let mut ids = cells.iter().map(|k| if swap { at(c.0 + d, c.1 + k) } else { at(c.0 + k, c.1 + d) });
                if ids.clone().all(|i| i.is_some()) && !ids.any(|i| after[i.unwrap()] == color) {
                    return Err(format!("nothing is drawn at offset {} (side {}, swapped {})", d, side, swap));
                }
            }
        }
    }
    Ok(())
}

/// A machine that draws.
struct Drawing {
    machine: endbasic_std::Machine,
    look: Look,
}

impl Drawing {
    fn new(con: Rc<RefCell<dyn Console>>, look: Look) -> Self {
        con.borrow_mut().hide_cursor().unwrap();
        Drawing { machine: MachineBuilder::default().with_console(con).build(), look }
    }

    fn run(&mut self, code: &str) -> Result<(), String> {
        self.machine.compile(&mut code.as_bytes()).map_err(|e| format!("compile: {}", e))?;
        block_on(self.machine.exec()).map(|_| ()).map_err(|e| e.to_string())
    }
}

/// A console in memory and a function to look at it.
fn in_memory(w: usize, h: usize) -> Result<(Rc<RefCell<dyn Console>>, Look), String> {
    let (con, screen) = gfx(w, h, &FONT_5X8, None, None);
    let look = move || {
        let sc = screen.borrow();
        match sc.bad.first() {
            Some(b) => Err(b.clone()),
            None => Ok(sc.data.clone()),
        }
    };
    Ok((Rc::new(RefCell::new(con)), Box::new(look)))
}

fn some_point(s: &mut Src, w: i64, h: i64, far: bool) -> P {
    let mut c = |n: i64| match s.range(0, 9) {
        0 => -s.range(1, 10),
        1 => n + s.range(0, 10),
        2 if far => *s.pick(&[i16::MAX as i64, i16::MIN as i64, 32000, -32000, 1000, -1000, 300]),
        3 => *s.pick(&[0, n - 1]),
        _ => s.range(0, n - 1),
    } as i32;
    (c(w), c(h))
}

fn some_shape(s: &mut Src, w: i64, h: i64) -> Shape {
    let far = s.chance(1, 4);
    let filled = s.chance(1, 2);
    let mut shape = match s.weighted(&[1, 4, 3, 4, 6, 2]) {
        0 => Shape::Pixel(some_point(s, w, h, far)),
        1 => Shape::Line(some_point(s, w, h, far), some_point(s, w, h, far)),
        2 => Shape::Rect(some_point(s, w, h, far), some_point(s, w, h, far), filled),
        3 => {
            let r = match s.range(0, 9) {
                0 => s.range(0, 2) as i32,
                1 => *s.pick(&[200, 1000]),
                2 => *s.pick(&[16384, 40000, 65535, 65536, -1, i32::MAX]),
                3 if far && !filled => *s.pick(&[16383, 16000, 12000]),
                _ => s.range(0, w) as i32,
            };
            Shape::Circle(some_point(s, w, h, far), r, filled)
        }
        4 => {
            let n = if s.chance(1, 2) { 3 } else { s.range(0, 8) };
            // Long filled polygons take too long.
            let far = far && (!filled || s.chance(1, 10));
            let mut ps: Vec<P> = (0..n).map(|_| some_point(s, w, h, far)).collect();
            if n > 1 && s.chance(1, 8) {
                let i = s.idx(ps.len());
                ps[i] = ps[0];
            }
            let form = if n == 3 {
                *s.pick(&[Form::Tri, Form::List, Form::Flat, Form::Matrix])
            } else if n == 0 {
                Form::List
            } else {
                *s.pick(&[Form::List, Form::Flat, Form::Matrix])
            };
            Shape::Poly(ps, filled, form)
        }
        _ => Shape::Fill(some_point(s, w, h, far)),
    };
    if s.chance(1, 40) {
        let c = *s.pick(&[32768, -32769, i32::MAX, i32::MIN + 1]);
        match &mut shape {
            Shape::Pixel(p) | Shape::Fill(p) | Shape::Line(_, p) | Shape::Rect(p, _, _) | Shape::Circle(p, _, _) => p.1 = c,
            Shape::Poly(ps, _, _) => {
                if let Some(p) = ps.last_mut() {
                    p.0 = c;
                }
            }
        }
    }
    shape
}

fn shapes(s: &mut Src, case: &mut Case) -> CaseResult {
    shapes_on(s, case, &in_memory, false)
}

/// Draws shapes on the console that `start` creates. `loose` is for those that have their own lines.
pub fn shapes_on(
    s: &mut Src,
    case: &mut Case,
    start: &dyn Fn(usize, usize) -> Result<(Rc<RefCell<dyn Console>>, Look), String>,
    loose: bool,
) -> CaseResult {
    let (w, h) = (s.range(10, 40), s.range(16, 40));
    let n = s.range(1, 6);
    let list: Vec<(u8, Shape)> = (0..n).map(|_| (s.range(1, 15) as u8, some_shape(s, w, h))).collect();
    let buffered = s.chance(1, 3);
    let mut text = format!("screen of {}x{}\n", w, h);
    let first = if buffered { "GFX_SYNC FALSE\n" } else { "" };
    text += first;
    for (i, (c, sh)) in list.iter().enumerate() {
        text += &format!("COLOR {}\n{}", c, sh.code(i));
    }
    case.set_text(text);
    let (w, h) = (w as i32, h as i32);
    let (con, look) = start(w as usize, h as usize)?;
    let mut d = Drawing::new(con, look);
    d.run(first)?;
    for (i, (c, sh)) in list.iter().enumerate() {
        let before = (d.look)()?;
        let color = palette(*c);
        let at = format!("shape {}: {:?} in color {}", i, sh, c);
        let r = d.run(&format!("COLOR {}\n{}", c, sh.code(i)));
        let r = match r {
            Ok(()) if buffered => {
                if (d.look)()? != before {
                    return Err(format!("{}: drawn on the screen with syncing disabled", at));
                }
                d.run("GFX_SYNC")
            }
            r => r,
        };
        let data = (d.look)().map_err(|e| format!("{}: {}", at, e))?;
        if let Some(e) = sh.error() {
            case.label("bad arguments");
            match r {
                Err(m) if m.ends_with(&e) => (),
                r => return Err(format!("{}: {:?} instead of {}", at, r, e)),
            }
            if data != before {
                return Err(format!("{}: drawn in spite of the error", at));
            }
            continue;
        }
        r.map_err(|e| format!("{}: {}", at, e))?;
        let sp = spec(sh, w, h, &before, color, loose);
        let mut drawn = 0;
        for y in 0..h {
            for x in 0..w {
                let i = (y * w + x) as usize;
                if sp.must[i] && data[i] != color {
                    return Err(format!("{}: pixel {},{} must be drawn", at, x, y));
                }
                if data[i] != before[i] && (!sp.may[i] || data[i] != color) {
                    return Err(format!("{}: pixel {},{} was changed to {:?}", at, x, y, data[i]));
                }
                drawn += sp.may[i] as u32;
            }
        }
        if let Shape::Circle(cen, r, false) = sh {
            closed_circle(*cen, *r, w, h, &before, &data, color).map_err(|e| format!("{}: {}", at, e))?;
        }
        if drawn > 3 {
            case.nontrivial = true;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "U02",
            rule: "at least 5 operations on the console",
            quick: 150000,
            thorough: 5000000,
            run: graphics_console,
            assumptions: &[
                "at least 2 rows and 2 columns of text",
                "what is drawn under a visible cursor is not specified until overwritten",
            ],
        },
        Prop {
            id: "U03",
            rule: "some shape covers at least 4 pixels of the screen",
            quick: 60000,
            thorough: 2000000,
            run: shapes,
            assumptions: &["consoles with their own drawing primitives are not exercised here (SDL is in U08)"],
        },
    ]
}
