//! Properties of the web frontend, which runs unmodified against a simulated browser, next to the
//! same session on reference implementations of what the frontend provides.

use crate::engine::*;
use async_channel::{Receiver, Sender};
use async_trait::async_trait;
use endbasic_std::console::drawing::draw_text;
use endbasic_std::console::graphics::{InputOps, RasterInfo, RasterOps};
use endbasic_std::console::{GraphicsConsole, Key, PixelsXY, RGB, SizeInPixels, rgb_to_ansi_color};
use endbasic_std::gfx::lcd::fonts::{FONT_VGA8X16, Font};
use endbasic_std::sound::{AudioOps, Tone};
use endbasic_std::storage::{Drive, DriveFactory, DriveFiles, Metadata};
use endbasic_std::{Signal, Yielder};
use endbasic_web::WebTerminal;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use time::{OffsetDateTime, UtcOffset};
use wasm_bindgen::sim::{self, KeyOrder, Raster};
use web_sys::{HtmlCanvasElement, InputEvent, KeyboardEvent, Press};

const URL: &str = "http://localhost:1/";
const PREFIX: &str = "endbasic-program:";

// --- The reference.

/// What the browser has to provide over the whole history of a site.
struct World {
    /// Programs by their upper case names.
    files: BTreeMap<String, (Vec<u8>, i64)>,
    /// How many more programs can be written before the storage is full.
    capacity: Option<u64>,
    /// Time of day, in seconds.
    date: i64,
    /// Minutes from the local time to UTC.
    tz: i64,
    waits: Vec<Duration>,
    tones: Vec<Tone>,
    /// Whether the session stopped to yield.
    yielding: bool,
}

type Shared = Rc<RefCell<World>>;

struct RefDrive(Shared);

fn not_found() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "File not found")
}

#[async_trait(?Send)]
impl Drive for RefDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        match self.0.borrow_mut().files.remove(&name.to_ascii_uppercase()) {
            Some(_) => Ok(()),
            None => Err(not_found()),
        }
    }

    async fn enumerate(&self) -> io::Result<DriveFiles> {
        let w = self.0.borrow();
        let offset = UtcOffset::from_whole_seconds(-(w.tz as i32) * 60).unwrap();
        let entries = w.files.iter().map(|(k, (content, mtime))| {
            let date = OffsetDateTime::from_unix_timestamp(*mtime).unwrap().to_offset(offset);
            (k.clone(), Metadata { date, length: content.len() as u64 })
        });
        Ok(DriveFiles::new(entries.collect(), None, None))
    }

    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        let w = self.0.borrow();
        w.files.get(&name.to_ascii_uppercase()).map(|f| f.0.clone()).ok_or_else(not_found)
    }

    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        let w = &mut *self.0.borrow_mut();
        let name = name.to_ascii_uppercase();
        if !name.ends_with(".BAS") {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "File name must have the .BAS extension",
            ));
        }
        if let Some(n) = &mut w.capacity {
            if *n == 0 {
                return Err(io::Error::other(format!(
                    "Failed to put local storage entry with key {}{}: JsValue(\"QuotaExceededError\")",
                    PREFIX, name
                )));
            }
            *n -= 1;
        }
        w.files.insert(name, (content.to_vec(), w.date));
        Ok(())
    }
}

struct RefFactory(Shared);

impl DriveFactory for RefFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        if !target.is_empty() {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "Cannot specify a path to mount a web local drive",
            ));
        }
        Ok(Box::from(RefDrive(self.0.clone())))
    }
}

struct RefInput(Receiver<Key>);

#[async_trait(?Send)]
impl InputOps for RefInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.try_recv().ok())
    }

    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(self.0.recv().await.unwrap())
    }
}

struct RefAudio(Shared);

#[async_trait(?Send)]
impl AudioOps for RefAudio {
    async fn play_tone(&mut self, tone: Tone) -> io::Result<()> {
        let error = |m: &str| Err(io::Error::new(io::ErrorKind::InvalidInput, m));
        if tone.frequency_hz == 0 {
            return error("Tone frequency must be positive");
        }
        if tone.duration.as_millis() > i32::MAX as u128 {
            return error("Tone duration too long");
        }
        let mut w = self.0.borrow_mut();
        w.waits.push(tone.duration);
        w.tones.push(tone);
        Ok(())
    }
}

struct RefDateTime(Shared);

#[async_trait(?Send)]
impl endbasic_std::datetime::DateTime for RefDateTime {
    fn monotonic(&self) -> Duration {
        self.0.borrow().waits.iter().sum()
    }

    async fn sleep(&self, d: Duration) -> Result<(), String> {
        if d.as_millis() > i32::MAX as u128 {
            return Err("Cannot sleep for that long".to_owned());
        }
        self.0.borrow_mut().waits.push(d);
        Ok(())
    }
}

/// A yielder that stops the session every now and then.
struct RefYielder {
    world: Shared,
    count: u64,
}

#[async_trait(?Send)]
impl Yielder for RefYielder {
    async fn yield_now(&mut self) {
        self.count += 1;
        if !self.count.is_multiple_of(64) {
            return;
        }
        self.world.borrow_mut().yielding = true;
        let mut done = false;
        std::future::poll_fn(|_| {
            if std::mem::replace(&mut done, true) { Poll::Ready(()) } else { Poll::Pending }
        })
        .await;
        self.world.borrow_mut().yielding = false;
    }
}

struct RefRaster {
    raster: Rc<RefCell<Raster>>,
    color: RGB,
    font: &'static Font,
}

fn p(xy: &PixelsXY) -> (i32, i32) {
    (i32::from(xy.x), i32::from(xy.y))
}

impl RasterOps for RefRaster {
    type ID = Raster;

    fn get_info(&self) -> RasterInfo {
        let r = self.raster.borrow();
        let size_pixels = SizeInPixels::new(r.w as u16, r.h as u16);
        RasterInfo {
            size_pixels,
            size_chars: self.font.chars_in_area(size_pixels),
            glyph_size: self.font.glyph_size.into(),
        }
    }

    fn set_draw_color(&mut self, color: RGB) {
        self.color = color;
    }

    fn clear(&mut self) -> io::Result<()> {
        let mut r = self.raster.borrow_mut();
        r.px.fill(self.color);
        Ok(())
    }

    fn present_canvas(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        let r = self.raster.borrow();
        let (x, y) = p(&xy);
        if x < 0 || y < 0 || x >= r.w || y >= r.h {
            return Ok(None);
        }
        Ok(rgb_to_ansi_color(r.get(x, y)))
    }

    fn read_pixels(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<Raster> {
        let (x, y) = p(&xy);
        Ok(self.raster.borrow().crop(x, y, i32::from(size.width), i32::from(size.height)))
    }

    fn put_pixels(&mut self, xy: PixelsXY, data: &Raster) -> io::Result<()> {
        let (x, y) = p(&xy);
        self.raster.borrow_mut().paste(x, y, data);
        Ok(())
    }

    fn move_pixels(&mut self, x1y1: PixelsXY, x2y2: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let (w, h) = (i32::from(size.width), i32::from(size.height));
        let mut r = self.raster.borrow_mut();
        let part = r.crop(p(&x1y1).0, p(&x1y1).1, w, h);
        r.fill_rect(p(&x1y1).0, p(&x1y1).1, w, h, self.color);
        r.paste(p(&x2y2).0, p(&x2y2).1, &part);
        Ok(())
    }

    fn write_text(&mut self, xy: PixelsXY, text: &str) -> io::Result<()> {
        let font = self.font;
        draw_text(self, font, xy, text)
    }

    fn draw_circle(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
        let (x, y) = p(&center);
        self.raster.borrow_mut().circle(x, y, i32::from(radius), false, self.color);
        Ok(())
    }

    fn draw_circle_filled(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
        let (x, y) = p(&center);
        self.raster.borrow_mut().circle(x, y, i32::from(radius), true, self.color);
        Ok(())
    }

    fn draw_line(&mut self, x1y1: PixelsXY, x2y2: PixelsXY) -> io::Result<()> {
        self.raster.borrow_mut().line(p(&x1y1), p(&x2y2), self.color);
        Ok(())
    }

    fn draw_pixel(&mut self, xy: PixelsXY) -> io::Result<()> {
        let (x, y) = p(&xy);
        self.raster.borrow_mut().set(x, y, self.color);
        Ok(())
    }

    fn draw_poly(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        let points: Vec<_> = points.iter().map(p).collect();
        self.raster.borrow_mut().poly(&points, true, self.color);
        Ok(())
    }

    fn draw_poly_filled(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        let points: Vec<_> = points.iter().map(p).collect();
        self.raster.borrow_mut().poly_filled(&points, self.color);
        Ok(())
    }

    fn draw_rect(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let (x, y) = p(&xy);
        let (w, h) = (i32::from(size.width), i32::from(size.height));
        let (x2, y2) = (x + w - 1, y + h - 1);
        let points = [(x, y), (x2, y), (x2, y2), (x, y2)];
        self.raster.borrow_mut().poly(&points, true, self.color);
        Ok(())
    }

    fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let (x, y) = p(&xy);
        let (w, h) = (i32::from(size.width), i32::from(size.height));
        self.raster.borrow_mut().fill_rect(x, y, w, h, self.color);
        Ok(())
    }

    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.draw_poly(&[a, b, c])
    }

    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.draw_poly_filled(&[a, b, c])
    }
}

/// Runs a session the way in which the web frontend has to.
async fn reference(
    world: Shared,
    raster: Rc<RefCell<Raster>>,
    keys: Receiver<Key>,
    signals: (Sender<Signal>, Receiver<Signal>),
) -> io::Result<()> {
    let raster_ops = RefRaster { raster, color: (0, 0, 0), font: &FONT_VGA8X16 };
    let console =
        GraphicsConsole::new(RefInput(keys), raster_ops, RefAudio(world.clone()), None, None)?;
    let console = Rc::from(RefCell::from(console));
    let mut builder = endbasic_std::MachineBuilder::default()
        .with_console(console.clone())
        .with_datetime(Rc::from(RefDateTime(world.clone())))
        .with_yielder(Rc::from(RefCell::from(RefYielder { world: world.clone(), count: 0 })))
        .with_signals_chan(signals);
    let program = Rc::from(RefCell::from(endbasic_repl::editor::Editor::default()));
    let storage = Rc::from(RefCell::from(endbasic_std::storage::Storage::default()));
    {
        let mut storage = storage.borrow_mut();
        let demos = endbasic_repl::demos::DemoDriveFactory::default();
        storage.register_scheme("demos", Box::from(demos));
        storage.mount("demos", "demos://")?;
        storage.register_scheme("local", Box::from(RefFactory(world)));
        storage.mount("local", "local://")?;
        storage.cd("local:")?;
    }
    let service = endbasic_client::CloudService::new(URL)?;
    endbasic_client::add_all(
        &mut builder,
        Rc::from(RefCell::from(service)),
        console.clone(),
        storage.clone(),
        "http://localhost/".to_owned(),
    );
    let mut machine = builder
        .make_interactive()
        .with_program(program.clone())
        .with_storage(storage.clone())
        .build();
    endbasic_repl::print_welcome(&mut *console.borrow_mut())?;
    endbasic_repl::try_load_autoexec(&mut machine, console.clone(), storage).await?;
    loop {
        let result =
            endbasic_repl::run_repl_loop(&mut machine, console.clone(), program.clone()).await;
        use endbasic_std::console::Console;
        let mut console = console.borrow_mut();
        match result {
            Ok(code) => console.print(&format!("Interpreter exited with code {}", code))?,
            Err(e) => console.print(&format!("FATAL ERROR: {}", e))?,
        }
        console.print("Resuming execution because the web interpreter cannot be exited")?;
        console.print("")?;
    }
}

// --- Sessions.

/// What the user does at the page.
#[derive(Clone, Debug)]
enum Stroke {
    /// A key of the keyboard and what it means.
    Key(Press, Key),
    /// Text of an on-screen keyboard.
    Text(Option<String>),
    /// A button next to the on-screen keyboard.
    Button(Key),
}

impl Stroke {
    fn keys(&self) -> Vec<Key> {
        match self {
            Stroke::Key(_, k) | Stroke::Button(k) => vec![*k],
            Stroke::Text(t) => t.iter().flat_map(|t| t.chars()).map(Key::Char).collect(),
        }
    }

    fn show(&self) -> String {
        match self {
            Stroke::Key(p, Key::Char(c)) if !p.shift => c.to_string(),
            Stroke::Key(p, _) => {
                let m = |b: bool, s: &'static str| if b { s } else { "" };
                format!(
                    "<{}{}{}{}{}>",
                    m(p.ctrl, "C-"),
                    m(p.alt, "A-"),
                    m(p.meta, "M-"),
                    m(p.shift, "S-"),
                    p.key
                )
            }
            Stroke::Text(Some(t)) => format!("{:?}", t),
            Stroke::Text(None) => "<no text>".to_owned(),
            Stroke::Button(k) => format!("[{:?}]", k),
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    /// Something done once the session waits for input.
    Do(Stroke),
    /// Something done while a program keeps running.
    Poke(Stroke),
    /// The page is loaded again.
    Reload,
    /// The browser has room for only so many more changes.
    Capacity(Option<u64>),
}

/// Conditions under which the sessions run.
struct Site {
    w: u32,
    h: u32,
    tick: f64,
    tz: i64,
    date: i64,
    order: KeyOrder,
    /// Entries found in the local storage of the browser.
    stored: Vec<(String, String)>,
    /// The programs that those represent.
    files: BTreeMap<String, (Vec<u8>, i64)>,
    /// Programs of the above for which there are other acceptable contents.
    either: BTreeMap<String, Vec<(Vec<u8>, i64)>>,
    /// Whether everything that is drawn has to show at once.
    sync: bool,
}

impl Default for Site {
    fn default() -> Self {
        Site {
            w: 320,
            h: 160,
            tick: 5.0,
            tz: 0,
            date: 1_700_000_000,
            order: KeyOrder::Insertion,
            stored: vec![],
            files: BTreeMap::new(),
            either: BTreeMap::new(),
            sync: true,
        }
    }
}

type Session = Pin<Box<dyn Future<Output = ()>>>;

fn poll(s: &mut Session) -> Result<(), String> {
    match s.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Pending => Ok(()),
        Poll::Ready(()) => Err("The session ended".to_owned()),
    }
}

/// Turns for which a session can keep busy.
const PATIENCE: u64 = 20_000;

/// Turns after which a busy session gets its input.
const POKE: u64 = 40;

/// How a session was left.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Left {
    Idle,
    Busy,
}

struct Page {
    canvas: HtmlCanvasElement,
    session: Session,
    osk: Box<dyn Fn(&Stroke)>,
}

impl Page {
    fn load(site: &Site) -> Self {
        sim::with(|b| b.unload());
        let canvas = HtmlCanvasElement::create(site.w, site.h);
        let terminal = WebTerminal::new(canvas.clone(), URL.to_owned());
        let osk = terminal.on_screen_keyboard();
        let osk = Box::new(move |s: &Stroke| match s {
            Stroke::Key(p, _) => osk.inject_keyboard_event(KeyboardEvent::wrap(p.clone())),
            Stroke::Text(t) => osk.inject_input_event(InputEvent::wrap(t.clone())),
            Stroke::Button(Key::Escape) => osk.press_escape(),
            Stroke::Button(Key::ArrowUp) => osk.press_arrow_up(),
            Stroke::Button(Key::ArrowDown) => osk.press_arrow_down(),
            Stroke::Button(Key::ArrowLeft) => osk.press_arrow_left(),
            Stroke::Button(_) => osk.press_arrow_right(),
        });
        sim::with(|b| {
            b.drawn = None;
            b.resumed = b.now;
        });
        Page { canvas, session: Box::pin(terminal.run_repl_loop()), osk }
    }

    fn run(&mut self, turns: u64) -> Result<Left, String> {
        for _ in 0..turns {
            poll(&mut self.session)?;
            if !sim::host_turn() {
                return Ok(Left::Idle);
            }
        }
        Ok(Left::Busy)
    }
}

struct Twin {
    world: Shared,
    raster: Rc<RefCell<Raster>>,
    session: Session,
    keys: Sender<Key>,
    signals: Sender<Signal>,
}

impl Twin {
    fn load(site: &Site, world: &Shared) -> Self {
        let raster = Rc::new(RefCell::new(Raster::new(site.w as i32, site.h as i32)));
        let (keys, keys_rx) = async_channel::unbounded();
        let signals = async_channel::unbounded();
        let (w, r, s) = (world.clone(), raster.clone(), signals.clone());
        let session = Box::pin(async move {
            if let Err(e) = reference(w, r, keys_rx, s).await {
                panic!("Reference failed: {}", e);
            }
        });
        Twin { world: world.clone(), raster, session, keys, signals: signals.0 }
    }

    fn run(&mut self, turns: u64) -> Result<Left, String> {
        for _ in 0..turns {
            poll(&mut self.session)?;
            if !self.world.borrow().yielding {
                return Ok(Left::Idle);
            }
        }
        Ok(Left::Busy)
    }
}

fn entries_of(stored: &[(String, String)]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut out = BTreeMap::new();
    for (k, v) in stored {
        let Some(name) = k.strip_prefix(PREFIX) else { continue };
        if !name.to_ascii_uppercase().ends_with(".BAS") {
            continue;
        }
        let v: serde_json::Value =
            serde_json::from_str(v).map_err(|e| format!("{} is not valid JSON: {}", k, e))?;
        let content = v["content"].as_array().ok_or(format!("{} has no content", k))?;
        let content = content.iter().map(|b| b.as_u64().unwrap_or(256) as u8).collect();
        out.insert(name.to_owned(), content);
    }
    Ok(out)
}

/// Draws a part of the screens to tell them apart.
fn difference(web: &Raster, twin: &Raster) -> String {
    let mut rows = vec![];
    let (mut x1, mut y1, mut x2, mut y2) = (i32::MAX, i32::MAX, -1, -1);
    for y in 0..web.h {
        for x in 0..web.w {
            if web.get(x, y) != twin.get(x, y) {
                (x1, y1) = (x1.min(x), y1.min(y));
                (x2, y2) = (x2.max(x), y2.max(y));
            }
        }
    }
    rows.push(format!("The screens differ within ({}, {})-({}, {})", x1, y1, x2, y2));
    for (what, r) in [("On the web", web), ("Expected", twin)] {
        rows.push(format!("{}:", what));
        rows.extend(screen_text(r));
    }
    rows.join("\n")
}

/// Recognizes the text on a screen.
fn screen_text(r: &Raster) -> Vec<String> {
    let mut glyphs = BTreeMap::new();
    for c in (32u8..127).rev() {
        let mut g = Raster::new(8, 16);
        let raster = Rc::new(RefCell::new(g.clone()));
        let mut ops =
            RefRaster { raster: raster.clone(), color: (255, 255, 255), font: &FONT_VGA8X16 };
        let _ = draw_text(&mut ops, &FONT_VGA8X16, PixelsXY::new(0, 0), &char::from(c).to_string());
        g.px = raster.borrow().px.clone();
        glyphs.insert(g.px.iter().map(|p| p.0 != 0).collect::<Vec<bool>>(), char::from(c));
    }
    let mut out = vec![];
    for row in 0..r.h / 16 {
        let mut line = String::new();
        for col in 0..r.w / 8 {
            let cell = r.crop(col * 8, row * 16, 8, 16);
            let at = |bg: RGB| cell.px.iter().map(|p| *p != bg).collect::<Vec<bool>>();
            let c = cell.px.iter().find_map(|bg| glyphs.get(&at(*bg)).copied());
            line.push(c.unwrap_or('?'));
        }
        out.push(format!("  |{}|", line));
    }
    out
}

/// Compares what can be observed about the page and its reference.
fn compare(site: &Site, typed: usize, page: &Page, twin: &Twin) -> CaseResult {
    let pixels = page.canvas.pixels();
    if pixels != *twin.raster.borrow() {
        return Err(difference(&pixels, &twin.raster.borrow()));
    }
    let world = twin.world.borrow();
    sim::with(|b| {
        if let Some(f) = b.faults.first() {
            return Err(f.clone());
        }
        let foreign = |s: &[(String, String)]| {
            let mut v: Vec<_> =
                s.iter().filter(|(k, _)| !k.starts_with(PREFIX)).cloned().collect();
            v.sort();
            v
        };
        if foreign(&b.stored) != foreign(&site.stored) {
            return Err(format!("Data of others changed: {:?}", b.stored));
        }
        let stored = entries_of(&b.stored)?;
        let files: BTreeMap<String, Vec<u8>> =
            world.files.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        if stored != files {
            return Err(format!("The browser stores {:?} instead of {:?}", stored, files));
        }
        let same = |ms: &i32, d: &Duration| (f64::from(*ms) - d.as_secs_f64() * 1000.0).abs() <= 1.0;
        if b.waits.len() != world.waits.len()
            || !b.waits.iter().zip(&world.waits).all(|(ms, d)| same(ms, d))
        {
            let (a, e) = (&b.waits, &world.waits);
            let (na, ne) = (a.len(), e.len());
            let (a, e) = (&a[..na.min(20)], &e[..ne.min(20)]);
            return Err(format!("The {} delays were {:?} instead of the {} {:?}", na, a, ne, e));
        }
        if b.played.len() != world.tones.len() {
            return Err(format!("Played {:?} instead of {:?}", b.played, world.tones));
        }
        for (played, tone) in b.played.iter().zip(&world.tones) {
            let length = played.stopped.map(|s| s - played.started);
            let good = played.connected
                && played.hz == tone.frequency_hz as f32
                && played.shape == format!("{:?}", tone.waveform)
                && length.is_some_and(|l| {
                    (l - tone.duration.as_secs_f64() * 1000.0).abs() <= 1.0 + 10.0 * site.tick
                });
            if !good {
                return Err(format!("Played {:?} instead of {:?}", played, tone));
            }
        }
        // Characters that arrive at once are read one by one.
        let looks = (20 + 8 * typed) as f64 * site.tick;
        if b.longest > 1000.0 + looks {
            return Err(format!("The browser was blocked for {} ms", b.longest));
        }
        if site.sync && b.hidden > looks {
            return Err(format!("A drawing took {} ms to show", b.hidden));
        }
        Ok(())
    })
}

/// Runs a session and its reference.
fn session(site: &Site, steps: &[Step]) -> CaseResult {
    sim::with(|b| {
        *b = sim::Browser::default();
        b.now = 1234.5;
        b.tick = site.tick;
        b.tz = site.tz as f64;
        b.date = site.date as f64 * 1000.0 + 678.0;
        b.order = site.order;
        b.stored = site.stored.clone();
        b.href = "http://localhost/?lang=en".to_owned();
    });
    let world = Rc::new(RefCell::new(World {
        files: site.files.clone(),
        capacity: None,
        date: site.date,
        tz: site.tz,
        waits: vec![],
        tones: vec![],
        yielding: false,
    }));
    let typed = steps.iter().map(|s| match s {
        Step::Do(s) | Step::Poke(s) => s.keys().len(),
        _ => 0,
    });
    let typed = typed.max().unwrap_or(0);
    let mut page = Page::load(site);
    let mut twin = Twin::load(site, &world);
    for (i, step) in steps.iter().map(Some).chain([None]).enumerate() {
        let turns = if matches!(step, Some(Step::Poke(_))) { POKE } else { PATIENCE };
        let left = page.run(turns).map_err(|e| format!("At step {}: {}", i, e))?;
        if i == 0 {
            choose(site, &world)?;
        }
        let expected = twin.run(turns).map_err(|e| format!("At step {}: {}", i, e))?;
        if left == Left::Idle || !matches!(step, Some(Step::Poke(_))) {
            if left != expected && turns == PATIENCE {
                return Err(format!("At step {}: {:?} instead of {:?}", i, left, expected));
            }
            if left == Left::Busy {
                // The program does not end.
                return Ok(());
            }
            if expected == Left::Idle {
                compare(site, typed, &page, &twin).map_err(|e| format!("At step {}: {}", i, e))?;
            }
        }
        let stroke = match step {
            None => break,
            Some(Step::Do(s) | Step::Poke(s)) => s,
            Some(Step::Reload) => {
                drop(page);
                drop(twin);
                world.borrow_mut().yielding = false;
                page = Page::load(site);
                twin = Twin::load(site, &world);
                continue;
            }
            Some(Step::Capacity(n)) => {
                sim::with(|b| b.capacity = *n);
                world.borrow_mut().capacity = *n;
                continue;
            }
        };
        if stroke.keys().contains(&Key::CarriageReturn) {
            sim::with(|b| b.date += 61_000.0);
            world.borrow_mut().date += 61;
        }
        (page.osk)(stroke);
        for key in stroke.keys() {
            if key == Key::Interrupt {
                twin.signals.try_send(Signal::Break).unwrap();
            }
            twin.keys.try_send(key).unwrap();
        }
    }
    Ok(())
}

/// Adopts the contents that the page chose for programs stored under several names.
fn choose(site: &Site, world: &Shared) -> CaseResult {
    if site.either.is_empty() {
        return Ok(());
    }
    let stored = sim::with(|b| entries_of(&b.stored))?;
    for (name, options) in &site.either {
        let Some(f) = options.iter().find(|(content, _)| stored.get(name) == Some(content)) else {
            return Err(format!("The browser lost {}", name));
        };
        world.borrow_mut().files.insert(name.clone(), f.clone());
    }
    Ok(())
}

// --- Generators.

fn press(code: u32, key: &str) -> Press {
    Press { code, key: key.to_owned(), ..Press::default() }
}

fn enter() -> Stroke {
    Stroke::Key(press(13, "Enter"), Key::CarriageReturn)
}

/// The key that produces a character.
fn char_key(c: char) -> Stroke {
    let code = match c {
        ' ' => 32,
        '0'..='9' | 'A'..='Z' => c as u32,
        'a'..='z' => c.to_ascii_uppercase() as u32,
        // What these are depends on the layout of the keyboard.
        '!' => 49,
        '"' => 222,
        '#' => 51,
        '$' => 52,
        '%' => 53,
        '&' => 55,
        '(' => 57,
        ')' => 48,
        '*' => 56,
        '+' | '=' => 187,
        ',' => 188,
        '-' | '_' => 189,
        '.' => 190,
        ';' | ':' => 186,
        _ => 219,
    };
    let mut p = press(code, &c.to_string());
    p.shift = c.is_ascii_uppercase() || "!\"#$%&()*+:_".contains(c);
    Stroke::Key(p, Key::Char(c))
}

const NAMED: &[(u32, &str, Key)] = &[
    (8, "Backspace", Key::Backspace),
    (37, "ArrowLeft", Key::ArrowLeft),
    (39, "ArrowRight", Key::ArrowRight),
    (38, "ArrowUp", Key::ArrowUp),
    (40, "ArrowDown", Key::ArrowDown),
    (46, "Delete", Key::Delete),
    (36, "Home", Key::Home),
    (35, "End", Key::End),
    (9, "Tab", Key::Tab),
    (27, "Escape", Key::Escape),
    (33, "PageUp", Key::PageUp),
    (34, "PageDown", Key::PageDown),
    (16, "Shift", Key::Unknown),
    (17, "Control", Key::Unknown),
    (18, "Alt", Key::Unknown),
    (112, "F1", Key::Unknown),
    (45, "Insert", Key::Unknown),
    (20, "CapsLock", Key::Unknown),
    (229, "Process", Key::Unknown),
];

const CONTROL: &[(char, Key)] = &[
    ('a', Key::Home),
    ('b', Key::ArrowLeft),
    ('e', Key::End),
    ('f', Key::ArrowRight),
    ('p', Key::ArrowUp),
    ('n', Key::ArrowDown),
    ('j', Key::NewLine),
    ('m', Key::NewLine),
    ('c', Key::Interrupt),
    ('d', Key::EofOrDelete),
    ('k', Key::Unknown),
    ('g', Key::Unknown),
    ('q', Key::Unknown),
    ('z', Key::Unknown),
];

fn control(c: char, k: Key) -> Stroke {
    let mut p = press(c.to_ascii_uppercase() as u32, &c.to_string());
    p.ctrl = true;
    Stroke::Key(p, k)
}

/// Any key other than those that submit a line.
fn some_key(src: &mut Src) -> Stroke {
    match src.weighted(&[4, 4, 3, 1, 1]) {
        0 => char_key(*src.pick(&['a', 'Z', '0', ' ', '!', '#', '%', '(', '.', '\'', '"', 'é', '€', '\\', '|'])),
        1 => {
            let (code, name, key) = *src.pick(NAMED);
            let mut p = press(code, name);
            if src.chance(1, 8) {
                p.shift = true;
            }
            Stroke::Key(p, key)
        }
        2 => {
            let (c, k) = *src.pick(CONTROL);
            control(c, k)
        }
        3 => {
            // Shortcuts of the browser are not text.
            let c = *src.pick(&['x', '4', 'A', '.']);
            let Stroke::Key(mut p, _) = char_key(c) else { unreachable!() };
            match src.below(3) {
                0 => p.alt = true,
                1 => p.meta = true,
                _ => {
                    p.alt = true;
                    p.meta = true;
                }
            }
            Stroke::Key(p, Key::Unknown)
        }
        _ => match src.below(3) {
            0 => Stroke::Button(*src.pick(&[
                Key::Escape,
                Key::ArrowUp,
                Key::ArrowDown,
                Key::ArrowLeft,
                Key::ArrowRight,
            ])),
            1 => Stroke::Text(None),
            _ => Stroke::Text(Some(src.pick(&["b", "", "Hello", "\u{301}e", "ñ1"]).to_string())),
        },
    }
}

/// Types a line, without submitting it.
fn type_text(src: &mut Src, text: &str, steps: &mut Vec<Step>) {
    if text.is_empty() {
        return;
    }
    if src.chance(1, 4) {
        steps.extend(text.chars().map(|c| Step::Do(char_key(c))));
    } else {
        steps.push(Step::Do(Stroke::Text(Some(text.to_owned()))));
    }
}

fn type_line(src: &mut Src, text: &str, steps: &mut Vec<Step>) {
    type_text(src, text, steps);
    steps.push(Step::Do(enter()));
}

const NAMES: &[&str] = &["a", "B", "foo.bas", "Foo", "FOO.BAS", "x y", "ñu", "LOCAL:a", "local:/b", "a.BAS"];

const PROGRAMS: &[&[&str]] = &[
    &["PRINT 1"],
    &["FOR I% = 1 TO 3", "PRINT I%; \"é\"", "NEXT"],
    &["' nothing"],
    &["COLOR 2, 4", "CLS", "PRINT \"ok\""],
    &["PRINT \"\\\"", "", "PRINT 5 / 2"],
];

/// Replaces the program in memory with something.
fn edit(src: &mut Src, steps: &mut Vec<Step>) {
    if src.chance(2, 3) {
        type_line(src, "NEW", steps);
        // In case it asks.
        type_line(src, "y", steps);
    }
    type_line(src, "EDIT", steps);
    let lines = *src.pick(PROGRAMS);
    for l in lines {
        // The editor indents by itself, which does not matter.
        type_line(src, l, steps);
    }
    if src.chance(1, 3) {
        for _ in 0..src.below(5) {
            steps.push(Step::Do(some_key(src)));
        }
    }
    steps.push(Step::Do(Stroke::Key(press(27, "Escape"), Key::Escape)));
}

fn steps_text(site: &Site, steps: &[Step]) -> String {
    let mut out = format!(
        "{}x{} pixels, {} ms per look at the clock, {} minutes to UTC, keys by {:?}\n",
        site.w, site.h, site.tick, site.tz, site.order
    );
    for (k, v) in &site.stored {
        out.push_str(&format!("stored {:?}: {}\n", k, v));
    }
    for s in steps {
        match s {
            Step::Do(s) => {
                out.push_str(&s.show());
                if s.keys().contains(&Key::CarriageReturn) {
                    out.push('\n');
                }
            }
            Step::Poke(s) => out.push_str(&format!("(while running) {}\n", s.show())),
            Step::Reload => out.push_str("(reload)\n"),
            Step::Capacity(n) => out.push_str(&format!("(room for {:?})\n", n)),
        }
    }
    out
}

/// Serializes a program the way in which it has been from the first version.
fn entry(content: &str, mtime: i64) -> String {
    let d = OffsetDateTime::from_unix_timestamp(mtime).unwrap();
    let bytes: Vec<String> = content.bytes().map(|b| b.to_string()).collect();
    format!(
        "{{\"version\":1,\"content\":[{}],\"mtime\":[{},{},{},{},{},0,0,0,0]}}",
        bytes.join(","),
        d.year(),
        d.ordinal(),
        d.hour(),
        d.minute(),
        d.second()
    )
}

fn some_site(src: &mut Src) -> Site {
    let mut site = Site {
        w: *src.pick(&[320, 400, 163, 640]),
        h: *src.pick(&[160, 170, 96, 333]),
        tick: *src.pick(&[5.0, 0.5, 40.0]),
        tz: *src.pick(&[0, -60, 300, -345, 720]),
        date: 1_600_000_000 + src.below(200_000_000) as i64,
        order: *src.pick(&[KeyOrder::Insertion, KeyOrder::Sorted, KeyOrder::Hashed]),
        ..Site::default()
    };
    if src.chance(1, 8) {
        site.stored.push(("other:a.bas".to_owned(), "not mine".to_owned()));
    }
    site
}

/// Fills the local storage with what a previous version of the site could have left.
fn furnish(src: &mut Src, site: &mut Site) {
    let names =
        ["a.bas", "FOO.BAS", "Foo.bas", "foo.bas", "B.bas", "zoo.Bas", "NEW.BAS", "x y.bas", "ñu.bas"];
    let mut all: BTreeMap<String, Vec<(Vec<u8>, i64)>> = BTreeMap::new();
    for _ in 0..src.below(6) {
        let name = *src.pick(&names);
        let key = format!("{}{}", PREFIX, name);
        if site.stored.iter().any(|(k, _)| *k == key) {
            continue;
        }
        let content = src.pick(&["PRINT 1\n", "", "REM é\n", "END 3\n"]).to_string();
        let content = format!("{}' {}\n", content, name);
        let mtime = site.date - 1 - src.below(100_000_000) as i64;
        site.stored.push((key, entry(&content, mtime)));
        all.entry(name.to_ascii_uppercase()).or_default().push((content.into_bytes(), mtime));
    }
    for _ in 0..src.below(3) {
        let (k, v) = *src.pick(&[
            ("settings", "{}"),
            ("endbasic", "x"),
            ("a.bas", "PRINT 3"),
            ("Endbasic-program:q.bas", "?"),
        ]);
        if !site.stored.iter().any(|(e, _)| *e == k) {
            let at = src.idx(site.stored.len() + 1);
            site.stored.insert(at, (k.to_owned(), v.to_owned()));
        }
    }
    for (name, options) in all {
        site.files.insert(name.clone(), options[0].clone());
        if options.len() > 1 {
            site.either.insert(name, options);
        }
    }
}

fn w01(src: &mut Src, case: &mut Case) -> CaseResult {
    let mut site = some_site(src);
    if src.chance(2, 3) {
        furnish(src, &mut site);
    }
    site.sync = true;
    let mut steps = vec![];
    let mut changes = 0;
    for _ in 0..2 + src.below(8) {
        let name = *src.pick(NAMES);
        match src.weighted(&[4, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1]) {
            0 => {
                type_line(src, &format!("SAVE \"{}\"", name), &mut steps);
                changes += 1;
            }
            1 => {
                type_line(src, "DIR", &mut steps);
                case.label("directory listing");
            }
            2 => {
                type_line(src, &format!("LOAD \"{}\"", name), &mut steps);
                type_line(src, "y", &mut steps);
                let then = *src.pick(&["RUN", "LIST"]);
                type_line(src, then, &mut steps);
            }
            3 => {
                type_line(src, &format!("KILL \"{}\"", name), &mut steps);
                changes += 1;
            }
            4 => {
                let other = *src.pick(NAMES);
                type_line(src, &format!("COPY \"{}\", \"{}\"", name, other), &mut steps);
                changes += 1;
            }
            5 => edit(src, &mut steps),
            6 => {
                steps.push(Step::Reload);
                case.label("reload");
            }
            7 => {
                let n = if src.chance(1, 3) { None } else { Some(src.below(3)) };
                steps.push(Step::Capacity(n));
                case.label("storage that fills up");
            }
            8 => {
                type_line(src, "EDIT", &mut steps);
                type_line(src, "PRINT \"auto\"", &mut steps);
                steps.push(Step::Do(Stroke::Key(press(27, "Escape"), Key::Escape)));
                type_line(src, "SAVE \"autoexec\"", &mut steps);
                changes += 1;
            }
            9 => {
                let line = *src.pick(&[
                    "MOUNT \"local://\" AS \"more\"",
                    "CD \"more:\"",
                    "CD \"memory:\"",
                    "CD \"local:\"",
                    "PWD",
                    "MOUNT",
                    "MOUNT \"local://x\" AS \"other\"",
                    "UNMOUNT \"more\"",
                    "DIR \"demos:\"",
                    "COPY \"a.bas\", \"more:q\"",
                    "COPY \"memory:a\", \"local:q\"",
                    "KILL \"demos:hello\"",
                    "COPY \"demos:hello\", \"hello\"",
                ]);
                type_line(src, line, &mut steps);
            }
            _ => {
                let line = src_pick_text(src);
                type_line(src, line, &mut steps);
            }
        }
    }
    let legacy = site.files.keys().any(|n| !site.stored.iter().any(|(k, _)| k.strip_prefix(PREFIX) == Some(n)));
    if legacy {
        case.label("names from before case insensitivity");
    }
    if !site.either.is_empty() {
        case.label("names that only differ in case");
    }
    case.nontrivial = changes > 0 || legacy;
    case.set_text(steps_text(&site, &steps));
    session(&site, &steps)
}

/// A name or command out of the ordinary.
fn src_pick_text(src: &mut Src) -> &'static str {
    src.pick(&[
        "SAVE \"\"",
        "SAVE \"a.txt\"",
        "LOAD \"a/b\"",
        "COPY \"a\", \"b.txt\"",
        "KILL \"a.txt\"",
        "LOAD \"a.txt\"",
        "COPY \"a.txt\", \"c\"",
        "KILL \"*.bas\"",
        "DIR \"local:x\"",
        "SAVE \".bas\"",
        "SAVE \"new.bas\"",
    ])
}

fn coord(src: &mut Src, site: &Site) -> i64 {
    match src.weighted(&[8, 2, 1, 2]) {
        3 => {
            let edge = *src.pick(&[site.w, site.h]);
            i64::from(edge) - 1 + src.range(0, 1)
        }
        0 => src.range(0, i64::from(site.w.max(site.h))),
        1 => src.range(-20, 700),
        _ => *src.pick(&[-32768, 32767, -1, 0, 1]),
    }
}

fn coords(src: &mut Src, site: &Site, n: usize) -> String {
    (0..2 * n).map(|_| coord(src, site).to_string()).collect::<Vec<String>>().join(", ")
}

/// A statement that draws something.
fn some_drawing(src: &mut Src, site: &Site) -> String {
    let f = if src.chance(1, 2) { "F" } else { "" };
    match src.below(9) {
        0 => format!("GFX_PIXEL {}", coords(src, site, 1)),
        1 => format!("GFX_LINE {}", coords(src, site, 2)),
        2 => format!("GFX_RECT{} {}", f, coords(src, site, 2)),
        3 => {
            let r = *src.pick(&[0, 1, 5, 30, 200, 32767]);
            format!("GFX_CIRCLE{} {}, {}", f, coords(src, site, 1), r)
        }
        4 => format!("GFX_TRI{} {}", f, coords(src, site, 3)),
        5 => {
            let n = 1 + src.idx(6);
            format!("GFX_POLY{} {}", f, coords(src, site, n))
        }
        6 => format!("GFX_FILL {}", coords(src, site, 1)),
        7 => format!("PRINT GFX_PEEK({})", coords(src, site, 1)),
        _ => format!("COLOR {}, {}", src.below(256), src.below(20)),
    }
}

fn some_sound(src: &mut Src) -> String {
    match src.below(3) {
        0 => "BEEP".to_owned(),
        _ => format!(
            "SOUND {}, {}",
            src.pick(&["440", "1", "0", "-1", "20000", "2147483647"]),
            src.pick(&["0", "0.1", "2.5", "0.0004", "3000000", "2147483.647", "2147483.648", "1e300", "-1"])
        ),
    }
}

fn some_statement(src: &mut Src, site: &Site, case: &mut Case) -> String {
    match src.weighted(&[5, 5, 2, 2, 2, 1, 2]) {
        0 => {
            let what = *src.pick(&[
                "PRINT \"Hello\"",
                "PRINT \"a\", \"b\"; 3",
                "PRINT STRING(100, \"x\")",
                "PRINT",
                "PRINT \"é€ñ\";",
                "FOR i% = 1 TO 12: PRINT i%: NEXT",
                "PRINT \"Some rather long text that has to wrap on all but the widest of screens\"",
                "PRINT SCRCOLS; SCRROWS; GFX_WIDTH; GFX_HEIGHT",
            ]);
            what.replace("STRING(100, \"x\")", "\"xxxxxxxxxxyyyyyyyyyyzzzzzzzzzzwwwwwwwwww\"").to_string()
        }
        1 => {
            case.label("drawing");
            some_drawing(src, site)
        }
        2 => match src.below(3) {
            0 => "CLS".to_owned(),
            1 => format!("LOCATE {}, {}", src.below(30), src.below(12)),
            _ => format!("COLOR {}", src.below(16)),
        },
        3 => {
            case.label("sound");
            some_sound(src)
        }
        4 => {
            case.label("sleep");
            if src.chance(1, 5) {
                // Whatever else takes time takes less than the rounding.
                let time = "m# = MONOTONIC: SLEEP 2147475: PRINT INT((MONOTONIC - m#) / 10)";
                return time.to_owned();
            }
            let d = *src.pick(&["0", "0.1", "1.5", "0.0005", "100", "2147483.647", "2147483.648", "1e20"]);
            format!("SLEEP {}", d)
        }
        5 => "END 3".to_owned(),
        _ => src
            .pick(&[
                "GFX_SYNC FALSE",
                "GFX_SYNC",
                "GFX_SYNC TRUE",
                "FOR i% = 1 TO 3000: NEXT",
                "FOR i% = 1 TO 20: GFX_PIXEL i%, i%: NEXT",
                "DIM a(5) AS INTEGER: PRINT a(9)",
                "PRINT 1 +",
            ])
            .to_string(),
    }
}

fn w02(src: &mut Src, case: &mut Case) -> CaseResult {
    let mut site = some_site(src);
    let mut steps = vec![];
    let mut effects = 0;
    for _ in 0..2 + src.below(8) {
        match src.weighted(&[8, 3, 2, 2, 2, 1]) {
            0 => {
                let n = 1 + src.idx(3);
                let line: Vec<String> =
                    (0..n).map(|_| some_statement(src, &site, case)).collect();
                let line = line.join(": ");
                site.sync &= !line.contains("GFX_SYNC FALSE");
                type_line(src, &line, &mut steps);
                effects += 1;
            }
            1 => {
                // Editing of a line.
                let start = *src.pick(&["PRINT 12", "", "x = 1"]);
                type_text(src, start, &mut steps);
                for _ in 0..1 + src.below(8) {
                    steps.push(Step::Do(some_key(src)));
                }
                steps.push(Step::Do(enter()));
                case.label("editing");
                effects += 1;
            }
            2 => {
                let read = *src.pick(&[
                    "DO: LOOP UNTIL INKEY = \"x\"",
                    "k$ = \"\": WHILE k$ = \"\": k$ = INKEY: WEND: PRINT k$",
                ]);
                type_line(src, read, &mut steps);
                for _ in 0..src.below(3) {
                    steps.push(Step::Poke(some_key(src)));
                }
                steps.push(Step::Poke(char_key('x')));
                steps.push(Step::Do(enter()));
                case.label("keys read by a program");
                effects += 1;
            }
            3 => {
                let run = *src.pick(&[
                    "DO: LOOP",
                    "i% = 0: WHILE TRUE: i% = i% + 1: IF i% > 1000 THEN i% = 0: WEND",
                    "DO: a = a + 0.5: LOOP",
                    "INPUT \"Name\", n$",
                    "@x: GOTO @x",
                ]);
                type_line(src, run, &mut steps);
                steps.push(Step::Poke(control('c', Key::Interrupt)));
                case.label("interrupted program");
                effects += 1;
            }
            4 => {
                edit(src, &mut steps);
                let then = *src.pick(&["RUN", "LIST"]);
                type_line(src, then, &mut steps);
                case.label("editor");
                effects += 1;
            }
            _ => {
                type_line(src, "INPUT \"Name\", n$", &mut steps);
                for _ in 0..src.below(5) {
                    steps.push(Step::Do(some_key(src)));
                }
                steps.push(Step::Do(enter()));
                type_line(src, "PRINT n$", &mut steps);
                effects += 1;
            }
        }
    }
    case.nontrivial = effects > 0;
    case.set_text(steps_text(&site, &steps));
    session(&site, &steps)
}

pub fn props() -> Vec<Prop> {
    const ASSUMPTIONS: &[&str] = &[
        "The browser is simulated: web-sys, js-sys and wasm-bindgen are replaced by native crates \
         that model the events, clocks, local storage, canvas and audio of a browser; strokes along \
         the axes cover pixels as in browsers, while those that are sloped or round are not antialiased",
        "The cloud service is not contacted; what is not specific to the web (the interpreter, the \
         graphical console over its raster operations, the REPL) is checked by other properties and \
         runs the same on both sides of the comparison",
    ];
    vec![
        Prop {
            id: "W01",
            rule: "the session changes what the browser stores or starts with programs stored by an \
                   older version",
            quick: 1500,
            thorough: 40_000,
            run: w01,
            assumptions: ASSUMPTIONS,
        },
        Prop {
            id: "W02",
            rule: "the session submits at least one line that draws, prints, sounds, waits, reads \
                   keys or is interrupted",
            quick: 1500,
            thorough: 40_000,
            run: w02,
            assumptions: ASSUMPTIONS,
        },
    ]
}

fn lines(site: &Site, lines: &[&str]) -> CaseResult {
    let mut steps = vec![];
    for l in lines {
        steps.push(Step::Do(Stroke::Text(Some(l.to_string()))));
        steps.push(Step::Do(enter()));
    }
    session(site, &steps)
}

fn old_names(order: KeyOrder) -> CaseResult {
    let mut site = Site { order, ..Site::default() };
    for name in ["a.bas", "Foo.bas", "x.bas", "B.bas", "zoo.Bas", "NEW.BAS"] {
        let content = format!("' {}\n", name);
        let mtime = site.date - 5000;
        site.stored.push((format!("{}{}", PREFIX, name), entry(&content, mtime)));
        site.files.insert(name.to_uppercase(), (content.into_bytes(), mtime));
    }
    lines(&site, &["DIR", "LOAD \"zoo\"", "LIST"])
}

/// Fixed reproductions: property, name and check.
pub const REGRESSIONS: &[(&str, &str, fn() -> CaseResult)] = &[
    ("W01", "name-without-extension", || {
        lines(&Site::default(), &["KILL \"a\"", "COPY \"demos:hello.bas\", \"b.txt\"", "DIR"])
    }),
    ("W01", "old-names-by-insertion", || old_names(KeyOrder::Insertion)),
    ("W01", "old-names-sorted", || old_names(KeyOrder::Sorted)),
    ("W01", "old-names-hashed", || old_names(KeyOrder::Hashed)),
    ("W02", "strokes-between-pixels", || {
        lines(
            &Site::default(),
            &["GFX_RECT 10, 10, 30, 30", "PRINT GFX_PEEK(10, 20)", "GFX_LINE 50, 5, 50, 25", "GFX_LINE 5, 5, 5, 5"],
        )
    }),
    ("W02", "endless-tone", || lines(&Site::default(), &["SOUND 440, 2147483.648", "PRINT 1"])),
];
