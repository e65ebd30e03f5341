//! Stand-in for `web-sys`, for the parts of it that EndBASIC uses and a few others.

use js_sys::{Array, Function, Object};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use wasm_bindgen::sim::{self, Played, Raster, Rgb};
use wasm_bindgen::{Clamped, JsCast, JsValue, js_type};

fn fault(s: impl Into<String>) {
    let s = s.into();
    sim::with(|b| b.faults.push(s));
}

js_type!(EventTarget, (), Object);

// --- The window.

js_type!(Window, WindowState, Object);
pub struct WindowState {}

pub fn window() -> Option<Window> {
    Some(Window::wrap(WindowState {}))
}

impl Window {
    pub fn local_storage(&self) -> Result<Option<Storage>, JsValue> {
        Ok(Some(Storage::wrap(StorageState {})))
    }

    pub fn location(&self) -> Location {
        Location::wrap(LocationState {})
    }

    pub fn performance(&self) -> Option<Performance> {
        Some(Performance::wrap(PerformanceState {}))
    }

    pub fn document(&self) -> Option<Document> {
        Some(Document::wrap(DocumentState {}))
    }

    pub fn request_animation_frame(&self, f: &Function) -> Result<i32, JsValue> {
        Ok(sim::with(|b| b.add_frame(f.clone().into())))
    }

    pub fn set_timeout_with_callback(&self, f: &Function) -> Result<i32, JsValue> {
        self.set_timeout_with_callback_and_timeout_and_arguments_0(f, 0)
    }

    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(
        &self,
        f: &Function,
        ms: i32,
    ) -> Result<i32, JsValue> {
        Ok(sim::with(|b| b.add_timer(ms, f.clone().into())))
    }

    pub fn set_timeout_with_callback_and_timeout_and_arguments(
        &self,
        f: &Function,
        ms: i32,
        _args: &Array,
    ) -> Result<i32, JsValue> {
        self.set_timeout_with_callback_and_timeout_and_arguments_0(f, ms)
    }
}

js_type!(Location, LocationState, Object);
pub struct LocationState {}

impl Location {
    pub fn href(&self) -> Result<String, JsValue> {
        Ok(sim::with(|b| b.href.clone()))
    }
}

js_type!(Performance, PerformanceState, EventTarget);
pub struct PerformanceState {}

impl Performance {
    pub fn now(&self) -> f64 {
        sim::with(|b| b.clock())
    }
}

js_type!(Document, DocumentState, EventTarget);
pub struct DocumentState {}

js_type!(Element, Canvas, EventTarget);

impl Document {
    pub fn create_element(&self, name: &str) -> Result<Element, JsValue> {
        if name != "canvas" {
            return Err(JsValue::from_str("NotSupportedError"));
        }
        let canvas = HtmlCanvasElement::create(300, 150);
        Ok(JsValue::from(canvas).unchecked_into())
    }
}

// --- Local storage.

js_type!(Storage, StorageState, Object);
pub struct StorageState {}

impl Storage {
    pub fn length(&self) -> Result<u32, JsValue> {
        Ok(sim::with(|b| b.stored.len() as u32))
    }

    pub fn key(&self, i: u32) -> Result<Option<String>, JsValue> {
        Ok(sim::with(|b| b.key_at(i)))
    }

    pub fn get(&self, key: &str) -> Result<Option<String>, JsValue> {
        Ok(sim::with(|b| b.get_item(key)))
    }

    pub fn set(&self, key: &str, value: &str) -> Result<(), JsValue> {
        sim::with(|b| b.set_item(key, value))
    }

    pub fn delete(&self, key: &str) -> Result<(), JsValue> {
        sim::with(|b| b.remove_item(key));
        Ok(())
    }

    pub fn get_item(&self, key: &str) -> Result<Option<String>, JsValue> {
        self.get(key)
    }

    pub fn set_item(&self, key: &str, value: &str) -> Result<(), JsValue> {
        self.set(key, value)
    }

    pub fn remove_item(&self, key: &str) -> Result<(), JsValue> {
        self.delete(key)
    }

    pub fn clear(&self) -> Result<(), JsValue> {
        sim::with(|b| b.stored.clear());
        Ok(())
    }
}

// --- Message channels.

/// One end of a channel.
pub struct Port {
    handler: RefCell<Option<JsValue>>,
    closed: Cell<bool>,
    peer: RefCell<Option<MessagePort>>,
}

js_type!(MessagePort, Port, EventTarget);
js_type!(MessageEvent, MessageEventState, Object);
pub struct MessageEventState {}
js_type!(MessageChannel, (MessagePort, MessagePort), Object);

impl MessageChannel {
    pub fn new() -> Result<Self, JsValue> {
        let port = || {
            MessagePort::wrap(Port {
                handler: RefCell::default(),
                closed: Cell::default(),
                peer: RefCell::default(),
            })
        };
        let (a, b) = (port(), port());
        *a.native().peer.borrow_mut() = Some(b.clone());
        *b.native().peer.borrow_mut() = Some(a.clone());
        Ok(Self::wrap((a, b)))
    }

    pub fn port1(&self) -> MessagePort {
        self.native().0.clone()
    }

    pub fn port2(&self) -> MessagePort {
        self.native().1.clone()
    }
}

impl MessagePort {
    pub fn set_onmessage(&self, f: Option<&Function>) {
        *self.native().handler.borrow_mut() = f.map(|f| f.clone().into());
    }

    pub fn post_message(&self, _v: &JsValue) -> Result<(), JsValue> {
        let me = self.native();
        if me.closed.get() {
            return Ok(());
        }
        let peer = me.peer.borrow();
        if let Some(peer) = &*peer {
            let peer = peer.native();
            let handler = peer.handler.borrow();
            match &*handler {
                Some(h) => {
                    let event = MessageEvent::wrap(MessageEventState {});
                    sim::with(|b| b.add_message(h.clone(), event.into()));
                }
                None => fault("Message to a port that nobody listens to"),
            }
        }
        Ok(())
    }

    pub fn start(&self) {}

    pub fn close(&self) {
        let me = self.native();
        me.closed.set(true);
        if let Some(peer) = me.peer.borrow_mut().take() {
            peer.native().closed.set(true);
            *peer.native().peer.borrow_mut() = None;
        }
    }
}

// --- Sound.

js_type!(AudioNode, NodeState, EventTarget);
pub struct NodeState {
    /// Index of the tone that the node plays, if any.
    tone: Option<usize>,
}
js_type!(AudioDestinationNode, NodeState, AudioNode);
js_type!(AudioScheduledSourceNode, NodeState, AudioNode);
js_type!(OscillatorNode, NodeState, AudioScheduledSourceNode);
js_type!(AudioParam, ParamState, Object);
pub struct ParamState {
    tone: usize,
}
js_type!(BaseAudioContext, AudioContextState, EventTarget);
js_type!(AudioContext, AudioContextState, BaseAudioContext);
pub struct AudioContextState {}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum OscillatorType {
    Sine,
    Square,
    Sawtooth,
    Triangle,
    Custom,
}

impl AudioContext {
    pub fn new() -> Result<Self, JsValue> {
        Ok(Self::wrap(AudioContextState {}))
    }
}

impl BaseAudioContext {
    pub fn create_oscillator(&self) -> Result<OscillatorNode, JsValue> {
        let tone = sim::with(|b| {
            b.played.push(Played {
                hz: 440.0,
                shape: "Sine".to_owned(),
                started: f64::NAN,
                stopped: None,
                connected: false,
            });
            b.played.len() - 1
        });
        Ok(OscillatorNode::wrap(NodeState { tone: Some(tone) }))
    }

    pub fn destination(&self) -> AudioDestinationNode {
        AudioDestinationNode::wrap(NodeState { tone: None })
    }
}

impl AudioParam {
    pub fn set_value(&self, v: f32) {
        sim::with(|b| b.played[self.native().tone].hz = v);
    }

    pub fn value(&self) -> f32 {
        sim::with(|b| b.played[self.native().tone].hz)
    }
}

impl AudioNode {
    pub fn connect_with_audio_node(&self, to: &AudioNode) -> Result<AudioNode, JsValue> {
        if let (Some(tone), None) = (self.native().tone, to.native().tone) {
            sim::with(|b| b.played[tone].connected = true);
        }
        Ok(to.clone())
    }
}

impl OscillatorNode {
    pub fn frequency(&self) -> AudioParam {
        AudioParam::wrap(ParamState { tone: self.native().tone.unwrap() })
    }

    pub fn set_type(&self, t: OscillatorType) {
        sim::with(|b| b.played[self.native().tone.unwrap()].shape = format!("{:?}", t));
    }
}

impl AudioScheduledSourceNode {
    pub fn start(&self) -> Result<(), JsValue> {
        sim::with(|b| {
            let now = b.now;
            let tone = &mut b.played[self.native().tone.unwrap()];
            if !tone.started.is_nan() {
                return Err(JsValue::from_str("InvalidStateError"));
            }
            tone.started = now;
            Ok(())
        })
    }

    pub fn stop(&self) -> Result<(), JsValue> {
        sim::with(|b| {
            let now = b.now;
            let tone = &mut b.played[self.native().tone.unwrap()];
            if tone.started.is_nan() {
                return Err(JsValue::from_str("InvalidStateError"));
            }
            tone.stopped = Some(now);
            Ok(())
        })
    }
}

// --- Keyboards.

js_type!(InputEvent, Option<String>, Object);

impl InputEvent {
    pub fn data(&self) -> Option<String> {
        self.native().as_ref().clone()
    }
}

/// A key press.
#[derive(Clone, Debug, Default)]
pub struct Press {
    pub code: u32,
    pub key: String,
    pub alt: bool,
    pub ctrl: bool,
    pub meta: bool,
    pub shift: bool,
}

js_type!(KeyboardEvent, Press, Object);

impl KeyboardEvent {
    pub fn key_code(&self) -> u32 {
        self.native().code
    }

    pub fn key(&self) -> String {
        self.native().key.clone()
    }

    pub fn alt_key(&self) -> bool {
        self.native().alt
    }

    pub fn ctrl_key(&self) -> bool {
        self.native().ctrl
    }

    pub fn meta_key(&self) -> bool {
        self.native().meta
    }

    pub fn shift_key(&self) -> bool {
        self.native().shift
    }
}

// --- The canvas.

/// State shared by a canvas and its context.
pub struct CanvasState {
    pub size: Cell<(u32, u32)>,
    pub raster: RefCell<Raster>,
}

pub type Canvas = Rc<CanvasState>;

js_type!(HtmlElement, Canvas, Element);
js_type!(HtmlCanvasElement, Canvas, HtmlElement);

impl HtmlCanvasElement {
    /// Creates a canvas of a given size.
    pub fn create(w: u32, h: u32) -> Self {
        let raster = RefCell::new(Raster::new(w as i32, h as i32));
        Self::wrap(Rc::new(CanvasState { size: Cell::new((w, h)), raster }))
    }

    /// The pixels of the canvas.
    pub fn pixels(&self) -> Raster {
        self.native().raster.borrow().clone()
    }

    pub fn width(&self) -> u32 {
        self.native().size.get().0
    }

    pub fn height(&self) -> u32 {
        self.native().size.get().1
    }

    pub fn set_width(&self, w: u32) {
        let c = self.native();
        c.size.set((w, c.size.get().1));
        *c.raster.borrow_mut() = Raster::new(w as i32, c.size.get().1 as i32);
    }

    pub fn set_height(&self, h: u32) {
        let c = self.native();
        c.size.set((c.size.get().0, h));
        *c.raster.borrow_mut() = Raster::new(c.size.get().0 as i32, h as i32);
    }

    pub fn get_context(&self, kind: &str) -> Result<Option<Object>, JsValue> {
        self.get_context_with_context_options(kind, &JsValue::UNDEFINED)
    }

    pub fn get_context_with_context_options(
        &self,
        kind: &str,
        _options: &JsValue,
    ) -> Result<Option<Object>, JsValue> {
        if kind != "2d" {
            return Ok(None);
        }
        let context = CanvasRenderingContext2d::wrap(Context {
            canvas: self.clone(),
            state: RefCell::new(State {
                fill: (0, 0, 0),
                stroke: (0, 0, 0),
                composite: "source-over".to_owned(),
                square_caps: false,
                path: vec![],
            }),
        });
        Ok(Some(JsValue::from(context).unchecked_into()))
    }
}

js_type!(ContextAttributes2d, AttributesState, Object);
pub struct AttributesState {}

impl ContextAttributes2d {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self::wrap(AttributesState {})
    }

    pub fn set_alpha(&self, _v: bool) {}

    pub fn set_will_read_frequently(&self, _v: bool) {}

    pub fn set_desynchronized(&self, _v: bool) {}
}

js_type!(ImageData, Raster, Object);

impl ImageData {
    pub fn width(&self) -> u32 {
        self.native().w as u32
    }

    pub fn height(&self) -> u32 {
        self.native().h as u32
    }

    pub fn data(&self) -> Clamped<Vec<u8>> {
        Clamped(self.native().px.iter().flat_map(|p| [p.0, p.1, p.2, 255]).collect())
    }
}

enum Figure {
    Lines { points: Vec<(f64, f64)>, closed: bool },
    Circle { x: f64, y: f64, r: f64 },
}

struct State {
    fill: Rgb,
    stroke: Rgb,
    composite: String,
    square_caps: bool,
    path: Vec<Figure>,
}

pub struct Context {
    canvas: HtmlCanvasElement,
    state: RefCell<State>,
}

js_type!(CanvasRenderingContext2d, Context, Object);

/// Parses a color.
fn color(s: &str) -> Option<Rgb> {
    if let Some(s) = s.strip_prefix('#') {
        let n = u32::from_str_radix(s, 16).ok()?;
        return match s.len() {
            6 => Some(((n >> 16) as u8, (n >> 8) as u8, n as u8)),
            _ => None,
        };
    }
    let s = s.trim().strip_prefix("rgb(")?.strip_suffix(')')?;
    let v = s.split(',').map(|v| v.trim().parse::<i64>().ok()).collect::<Option<Vec<i64>>>()?;
    let c = |n: i64| n.clamp(0, 255) as u8;
    if v.len() == 3 { Some((c(v[0]), c(v[1]), c(v[2]))) } else { None }
}

/// Converts a coordinate, which EndBASIC only has as integers.
fn int(v: f64) -> i32 {
    if v.fract() != 0.0 {
        fault(format!("Coordinate {} is between pixels", v));
    }
    v as i32
}

/// Whether a coordinate is at the center of a pixel.
fn centered(v: f64) -> bool {
    (v - 0.5).fract() == 0.0
}

/// Paints the part of each pixel that is within a rectangle.
fn cover(raster: &mut Raster, x1: f64, y1: f64, x2: f64, y2: f64, c: Rgb) {
    let span = |a: f64, b: f64, max: i32| {
        (a.floor().max(0.0) as i32)..(b.ceil().min(f64::from(max)) as i32)
    };
    let part = |i: i32, a: f64, b: f64| (f64::from(i) + 1.0).min(b) - f64::from(i).max(a);
    for y in span(y1, y2, raster.h) {
        for x in span(x1, x2, raster.w) {
            let alpha = part(x, x1, x2) * part(y, y1, y2);
            let old = raster.get(x, y);
            let mix =
                |o: u8, n: u8| (f64::from(o) * (1.0 - alpha) + f64::from(n) * alpha).round() as u8;
            raster.set(x, y, (mix(old.0, c.0), mix(old.1, c.1), mix(old.2, c.2)));
        }
    }
}

/// Draws lines of one pixel of width, with antialiasing only where they are not diagonal.
fn stroke_lines(raster: &mut Raster, points: &[(f64, f64)], closed: bool, caps: bool, c: Rgb) {
    let mut ends: Vec<_> = points.windows(2).map(|p| (p[0], p[1])).collect();
    if closed && points.len() > 1 {
        ends.push((points[points.len() - 1], points[0]));
    }
    let cap = if closed || caps { 0.5 } else { 0.0 };
    for (p, q) in ends {
        if p == q {
            // Lines of no length do not draw.
        } else if p.0 == q.0 {
            let (y1, y2) = (p.1.min(q.1), p.1.max(q.1));
            cover(raster, p.0 - 0.5, y1 - cap, p.0 + 0.5, y2 + cap, c);
        } else if p.1 == q.1 {
            let (x1, x2) = (p.0.min(q.0), p.0.max(q.0));
            cover(raster, x1 - cap, p.1 - 0.5, x2 + cap, p.1 + 0.5, c);
        } else {
            if ![p.0, p.1, q.0, q.1].iter().all(|v| centered(*v)) {
                fault("Blurry line");
            }
            let floor = |v: (f64, f64)| (v.0.floor() as i32, v.1.floor() as i32);
            raster.line(floor(p), floor(q), c);
        }
    }
}

impl CanvasRenderingContext2d {
    pub fn canvas(&self) -> Option<HtmlCanvasElement> {
        Some(self.native().canvas.clone())
    }

    fn draw(&self, f: impl FnOnce(&mut Raster, &State)) {
        sim::with(|b| b.drawn = b.drawn.or(Some(b.now)));
        let c = self.native();
        let state = c.state.borrow();
        if state.composite != "source-over" {
            fault(format!("Drawing with composite operation {}", state.composite));
        }
        f(&mut c.canvas.native().raster.borrow_mut(), &state);
    }

    pub fn set_image_smoothing_enabled(&self, _v: bool) {}

    pub fn set_text_baseline(&self, _v: &str) {}

    pub fn set_line_width(&self, v: f64) {
        if v != 1.0 {
            fault(format!("Lines of width {}", v));
        }
    }

    pub fn set_line_cap(&self, s: &str) {
        self.native().state.borrow_mut().square_caps = s == "square";
    }

    pub fn set_line_join(&self, _s: &str) {}

    pub fn set_fill_style_str(&self, s: &str) {
        match color(s) {
            Some(c) => self.native().state.borrow_mut().fill = c,
            None => fault(format!("Invalid color {}", s)),
        }
    }

    pub fn set_stroke_style_str(&self, s: &str) {
        match color(s) {
            Some(c) => self.native().state.borrow_mut().stroke = c,
            None => fault(format!("Invalid color {}", s)),
        }
    }

    pub fn global_composite_operation(&self) -> Result<String, JsValue> {
        Ok(self.native().state.borrow().composite.clone())
    }

    pub fn set_global_composite_operation(&self, s: &str) -> Result<(), JsValue> {
        self.native().state.borrow_mut().composite = s.to_owned();
        Ok(())
    }

    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.draw(|r, s| r.fill_rect(int(x), int(y), int(w), int(h), s.fill));
    }

    pub fn clear_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.draw(|r, _| r.fill_rect(int(x), int(y), int(w), int(h), (0, 0, 0)));
    }

    pub fn stroke_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let points = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        self.draw(|r, s| stroke_lines(r, &points, true, true, s.stroke));
    }

    pub fn begin_path(&self) {
        self.native().state.borrow_mut().path.clear();
    }

    pub fn move_to(&self, x: f64, y: f64) {
        let c = self.native();
        c.state.borrow_mut().path.push(Figure::Lines { points: vec![(x, y)], closed: false });
    }

    pub fn line_to(&self, x: f64, y: f64) {
        let c = self.native();
        let mut state = c.state.borrow_mut();
        match state.path.last_mut() {
            Some(Figure::Lines { points, closed: false }) => points.push((x, y)),
            _ => state.path.push(Figure::Lines { points: vec![(x, y)], closed: false }),
        }
    }

    pub fn close_path(&self) {
        let c = self.native();
        if let Some(Figure::Lines { closed, .. }) = c.state.borrow_mut().path.last_mut() {
            *closed = true;
        }
    }

    pub fn rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let points = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        let c = self.native();
        c.state.borrow_mut().path.push(Figure::Lines { points, closed: true });
    }

    pub fn arc(&self, x: f64, y: f64, r: f64, from: f64, to: f64) -> Result<(), JsValue> {
        if r < 0.0 {
            return Err(JsValue::from_str("IndexSizeError"));
        }
        if to - from < 2.0 * std::f64::consts::PI {
            fault("Arc that is not a circle");
        }
        let c = self.native();
        c.state.borrow_mut().path.push(Figure::Circle { x, y, r });
        Ok(())
    }

    fn trace(&self, filled: bool) {
        let floor = |v: f64| v.floor() as i32;
        self.draw(|raster, s| {
            let c = if filled { s.fill } else { s.stroke };
            for f in &s.path {
                match f {
                    Figure::Circle { x, y, r } => {
                        if !filled && !(centered(*x) && centered(*y)) {
                            fault("Blurry circle");
                        }
                        raster.circle(floor(*x), floor(*y), int(*r), filled, c)
                    }
                    Figure::Lines { points, .. } if filled => {
                        let points: Vec<(i32, i32)> =
                            points.iter().map(|p| (floor(p.0), floor(p.1))).collect();
                        raster.poly_filled(&points, c);
                    }
                    Figure::Lines { points, closed } => {
                        stroke_lines(raster, points, *closed, s.square_caps, c)
                    }
                }
            }
        });
    }

    pub fn stroke(&self) {
        self.trace(false);
    }

    pub fn fill(&self) {
        self.trace(true);
    }

    pub fn get_image_data(&self, x: f64, y: f64, w: f64, h: f64) -> Result<ImageData, JsValue> {
        if w == 0.0 || h == 0.0 {
            return Err(JsValue::from_str("IndexSizeError"));
        }
        let c = self.native();
        let raster = c.canvas.native();
        let raster = raster.raster.borrow();
        Ok(ImageData::wrap(raster.crop(int(x), int(y), int(w), int(h))))
    }

    pub fn put_image_data(&self, data: &ImageData, x: f64, y: f64) -> Result<(), JsValue> {
        let c = self.native();
        c.canvas.native().raster.borrow_mut().paste(int(x), int(y), &data.native());
        Ok(())
    }

    pub fn draw_image_with_html_canvas_element(
        &self,
        from: &HtmlCanvasElement,
        x: f64,
        y: f64,
    ) -> Result<(), JsValue> {
        let (w, h) = (f64::from(from.width()), f64::from(from.height()));
        self.draw_image_with_html_canvas_element_and_sw_and_sh_and_dx_and_dy_and_dw_and_dh(
            from, 0.0, 0.0, w, h, x, y, w, h,
        )
    }

    #[allow(clippy::too_many_arguments)]
    pub fn draw_image_with_html_canvas_element_and_sw_and_sh_and_dx_and_dy_and_dw_and_dh(
        &self,
        from: &HtmlCanvasElement,
        sx: f64,
        sy: f64,
        sw: f64,
        sh: f64,
        dx: f64,
        dy: f64,
        dw: f64,
        dh: f64,
    ) -> Result<(), JsValue> {
        if sw != dw || sh != dh {
            fault("Scaled image");
        }
        let part = from.native().raster.borrow().crop(int(sx), int(sy), int(sw), int(sh));
        let c = self.native();
        let state = c.state.borrow();
        let canvas = c.canvas.native();
        let mut raster = canvas.raster.borrow_mut();
        match state.composite.as_str() {
            // Whatever is outside of the image turns transparent.
            "copy" => *raster = Raster::new(raster.w, raster.h),
            "source-over" => (),
            other => fault(format!("Unknown composite operation {}", other)),
        }
        // Parts of the source out of its canvas do not draw.
        let (fw, fh) = (from.width() as i32, from.height() as i32);
        for j in 0..part.h {
            for i in 0..part.w {
                let (x, y) = (int(sx) + i, int(sy) + j);
                if x >= 0 && y >= 0 && x < fw && y < fh {
                    let p = part.px[(j * part.w + i) as usize];
                    raster.set(int(dx) + i, int(dy) + j, p);
                }
            }
        }
        Ok(())
    }
}
