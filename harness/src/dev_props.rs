//! Properties of the commands that reach devices: GPIO pins, the clock and sound.

use crate::engine::*;
use crate::std_props::{V, some_double};
use crate::std_sut::*;
use endbasic_std::gpio::{MockPins, Pin, PinMode, Pins};
use endbasic_std::Machine;
use futures_lite::future::block_on;
use std::any::Any;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::time::Duration;

// ---- Programs that report their last error after every statement.

struct Prog {
    text: String,
    line: usize,
    outs: Vec<String>,
    last: String,
}

impl Prog {
    fn new() -> Self {
        Prog { text: "ON ERROR RESUME NEXT\n".to_owned(), line: 1, outs: vec![], last: String::new() }
    }

    /// Adds a statement with its outcome: output of the statement, or column and message of its error.
    fn add(&mut self, stmt: &str, outcome: Result<Vec<String>, (usize, String)>) {
        self.line += 1;
        self.text += stmt;
        self.text += "\nOUT ERRMSG\n";
        match outcome {
            Ok(o) => self.outs.extend(o),
            Err((col, m)) => self.last = format!("{}:{}: {}", self.line, col, m),
        }
        self.line += 1;
        self.outs.push(format!("{:?}$", self.last));
    }
}

/// An integer argument: its source and either its value or the error of evaluating it.
fn int_arg(s: &mut Src, i: i64) -> (String, Result<i32, String>) {
    match s.below(8) {
        0..=4 => (format!("{}", i), Ok(i as i32)),
        5 => {
            // Rounded when passed.
            let frac = *s.pick(&["0", "25", "49", "5", "75", "999"]);
            let up = frac.starts_with(['5', '7', '9']);
            let v = if !up {
                i
            } else if i < 0 {
                i - 1
            } else {
                i + 1
            };
            (format!("{}.{}", i, frac), Ok(v as i32))
        }
        6 if i < 1_000_000_000 => (format!("({} - 5)", i + 5), Ok(i as i32)),
        _ => {
            if s.chance(1, 4) {
                ("3000000000.0".to_owned(), Err("Cannot cast 3000000000 to integer due to overflow".to_owned()))
            } else {
                (format!("IDENT_I({})", i), Ok(i as i32))
            }
        }
    }
}

/// Position within an argument that its errors are reported at.
fn lead(arg: &str) -> usize {
    arg.find(|c| c != '(').unwrap()
}

fn bool_arg(s: &mut Src, b: bool) -> String {
    match s.below(5) {
        0 | 1 => (if b { "TRUE" } else { "FALSE" }).to_owned(),
        2 => format!("NOT {}", if b { "FALSE" } else { "TRUE" }),
        3 => (if b { "2 > 1" } else { "2 < 1" }).to_owned(),
        _ => (if b { "(\"a\" = \"a\")" } else { "(\"a\" = \"b\")" }).to_owned(),
    }
}

const PRELUDE: &str = "FUNCTION ident_i%(i%)\nident_i = i\nEND FUNCTION\n";

// ---- S08: GPIO

/// Pins that record what is asked of them and whose operations may fail.
#[derive(Default)]
struct RecPins {
    ops: Vec<String>,
    count: u64,
    fail_at: Vec<u64>,
    seed: u64,
}

fn level(seed: u64, count: u64, pin: u8) -> bool {
    let mut s = Src::random(seed ^ (count << 8) ^ u64::from(pin));
    s.chance(1, 2)
}

impl RecPins {
    fn op(&mut self, s: String) -> io::Result<u64> {
        let n = self.count;
        self.count += 1;
        if self.fail_at.contains(&n) {
            return Err(io::Error::other(format!("Injected failure in {}", s)));
        }
        self.ops.push(s);
        Ok(n)
    }
}

impl Pins for RecPins {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        self.op(format!("setup {} {:?}", pin.0, mode)).map(|_| ())
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.op(format!("clear {}", pin.0)).map(|_| ())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.op("clear_all".to_owned()).map(|_| ())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        let n = self.op(format!("read {}", pin.0))?;
        Ok(level(self.seed, n, pin.0))
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        self.op(format!("write {} {}", pin.0, v)).map(|_| ())
    }
}

/// What the backend of a machine is expected to do and have done.
enum Backend {
    Rec(RecPins),
    /// Queue of injected reads and trace.
    Mock(std::collections::VecDeque<(u8, bool)>, Vec<i32>),
}

impl Backend {
    fn read(&mut self, pin: u8) -> Result<bool, String> {
        match self {
            Backend::Rec(r) => {
                let n = r.op(format!("read {}", pin)).map_err(|e| e.to_string())?;
                Ok(level(r.seed, n, pin))
            }
            Backend::Mock(q, t) => match q.pop_front() {
                None => Err(format!("No mock read available for pin {}", pin)),
                Some((p, _)) if p != pin => {
                    Err(format!("Want to read pin {} but next mock read is for pin {}", pin, p))
                }
                Some((_, v)) => {
                    t.push(i32::from(pin) * 100 + 10 + i32::from(v));
                    Ok(v)
                }
            },
        }
    }

    /// Any operation but a read.
    fn act(&mut self, text: String, code: i32) -> Result<(), String> {
        match self {
            Backend::Rec(r) => r.op(text).map(|_| ()).map_err(|e| e.to_string()),
            Backend::Mock(_, t) => {
                t.push(code);
                Ok(())
            }
        }
    }
}

fn pin_number(s: &mut Src) -> i64 {
    match s.below(10) {
        0..=5 => s.range(0, 5),
        6 | 7 => s.range(0, 255),
        _ => *s.pick(&[-1, 254, 255, 256, 257, 300, 511, 65535, 65536, -2147483647, 2147483646, -255, -256]),
    }
}

fn check_pin(i: i32) -> Result<u8, String> {
    if i < 0 {
        Err(format!("Pin number {} must be positive", i))
    } else if i > 255 {
        Err(format!("Pin number {} is too large", i))
    } else {
        Ok(i as u8)
    }
}

fn upper_ascii(s: &str) -> String {
    s.chars().map(|c| c.to_ascii_uppercase()).collect()
}

fn gpio(s: &mut Src, case: &mut Case) -> CaseResult {
    let mock = s.chance(1, 3);
    let mut model = if mock {
        Backend::Mock(Default::default(), vec![])
    } else {
        let seed = s.below(1 << 32);
        let fail_at = (0..s.range(0, 2)).map(|_| s.below(20)).collect();
        Backend::Rec(RecPins { seed, fail_at, ..Default::default() })
    };
    let pins: Rc<RefCell<dyn Pins>> = match &model {
        Backend::Rec(r) => Rc::new(RefCell::new(RecPins {
            seed: r.seed,
            fail_at: r.fail_at.clone(),
            ..Default::default()
        })),
        Backend::Mock(..) => Rc::new(RefCell::new(MockPins::default())),
    };
    let (b, _con, _clock, log, _signals) = builder();
    let mut machine: Machine = b.with_gpio_pins(pins.clone()).build();

    let mut text = String::new();
    let mut kinds = 0u32;
    let mut result: CaseResult = Ok(());
    let mut last = String::new();
    let chunks = s.range(1, 3);
    for chunk in 0..chunks {
        let mut p = Prog::new();
        p.last = last.clone();
        if chunk == 0 {
            p.text = format!("{}{}", PRELUDE, p.text);
            p.line += PRELUDE.lines().count();
        }
        for _ in 0..s.range(1, 10) {
            let kind = s.weighted(&[4, 2, 1, 4, 5, if mock { 5 } else { 0 }, if mock { 2 } else { 0 }, 2]);
            kinds |= 1 << kind;
            let n = pin_number(s);
            let (arg, value) = int_arg(s, n);
            let pin = value.and_then(check_pin);
            match kind {
                0 => {
                    let mode = s.pick(&["IN", "in", "In-Pull-Up", "IN-PULL-UP", "IN-PULL-DOWN", "in-pull-DOWN", "OUT", "out", "", "INOUT", "IN ", "ıN", "FOO-é", "IN_PULL_UP"]);
                    let head = "GPIO_SETUP ".to_owned();
                    let stmt = format!("{}{}, \"{}\"", head, arg, mode);
                    let mode_col = head.len() + arg.len() + 3;
                    let up = upper_ascii(mode);
                    let (name, op) = match up.as_str() {
                        "IN" => ("In", 1),
                        "IN-PULL-DOWN" => ("InPullDown", 2),
                        "IN-PULL-UP" => ("InPullUp", 3),
                        "OUT" => ("Out", 4),
                        _ => ("", 0),
                    };
                    let r = match pin {
                        Err(e) => Err((head.len() + 1 + lead(&arg), e)),
                        Ok(_) if op == 0 => Err((mode_col, format!("Unknown pin mode {}", up))),
                        Ok(pin) => model
                            .act(format!("setup {} {}", pin, name), i32::from(pin) * 100 + op)
                            .map_err(|e| (1, e)),
                    };
                    p.add(&stmt, r.map(|_| vec![]));
                }
                1 => {
                    let r = match pin {
                        Err(e) => Err((12 + lead(&arg), e)),
                        Ok(pin) => model
                            .act(format!("clear {}", pin), i32::from(pin) * 100 + 5)
                            .map_err(|e| (1, e)),
                    };
                    p.add(&format!("GPIO_CLEAR {}", arg), r.map(|_| vec![]));
                }
                2 => {
                    let r = model.act("clear_all".to_owned(), -1).map_err(|e| (1, e));
                    p.add("GPIO_CLEAR", r.map(|_| vec![]));
                }
                3 => {
                    let stmt = format!("OUT GPIO_READ({})", arg);
                    let r = match pin {
                        Err(e) => Err((15 + lead(&arg), e)),
                        Ok(pin) => model.read(pin).map_err(|e| (5, e)),
                    };
                    p.add(&stmt, r.map(|v| vec![format!("{}?", if v { "true" } else { "false" })]));
                }
                4 => {
                    let v = s.chance(1, 2);
                    if s.chance(1, 4) {
                        // Forwards what another pin says.
                        let from = s.range(0, 5) as u8;
                        let stmt = format!("GPIO_WRITE {}, GPIO_READ({})", arg, from);
                        let col = "GPIO_WRITE ".len() + arg.len() + 3;
                        // Arguments are evaluated and converted in order.
                        let overflows = matches!(&pin, Err(e) if e.starts_with("Cannot"));
                        let r = if overflows { Ok(true) } else { model.read(from).map_err(|e| (col, e)) };
                        let r = match (r, pin) {
                            (Err(e), _) => Err(e),
                            (Ok(_), Err(e)) => Err((12 + lead(&arg), e)),
                            (Ok(v), Ok(pin)) => model
                                .act(format!("write {} {}", pin, v), i32::from(pin) * 100 + 20 + i32::from(v))
                                .map_err(|e| (1, e)),
                        };
                        p.add(&stmt, r.map(|_| vec![]));
                        continue;
                    }
                    let stmt = format!("GPIO_WRITE {}, {}", arg, bool_arg(s, v));
                    let r = match pin {
                        Err(e) => Err((12 + lead(&arg), e)),
                        Ok(pin) => model
                            .act(format!("write {} {}", pin, v), i32::from(pin) * 100 + 20 + i32::from(v))
                            .map_err(|e| (1, e)),
                    };
                    p.add(&stmt, r.map(|_| vec![]));
                }
                5 => {
                    let v = s.chance(1, 2);
                    let stmt = format!("GPIO_MOCK_INJECT {}, {}", arg, bool_arg(s, v));
                    let r = match pin {
                        Err(e) => Err((18 + lead(&arg), e)),
                        Ok(pin) => {
                            if let Backend::Mock(q, _) = &mut model {
                                q.push_back((pin, v));
                            }
                            Ok(vec![])
                        }
                    };
                    p.add(&stmt, r);
                }
                6 => {
                    let Backend::Mock(_, t) = &model else { unreachable!() };
                    let want = t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
                    p.add("OUT GPIO_MOCK_TRACE", Ok(vec![format!("{:?}$", want)]));
                }
                _ => {
                    // A loop over some pins.
                    let (a, b) = (s.range(0, 6), s.range(0, 6));
                    let down = a > b;
                    let stmt = format!(
                        "FOR i = {} TO {}{}: GPIO_WRITE i, i MOD 2 = 0: NEXT",
                        a,
                        b,
                        if down { " STEP -1" } else { "" }
                    );
                    let col = stmt.find("GPIO").unwrap() + 1;
                    let mut r = Ok(vec![]);
                    let mut i = a;
                    loop {
                        let v = i % 2 == 0;
                        if let Err(e) = model.act(format!("write {} {}", i, v), i as i32 * 100 + 20 + i32::from(v)) {
                            // Carries on at the next statement.
                            if let Err((_, m)) = std::mem::replace(&mut r, Err((col, e))) {
                                let _ = m;
                            }
                        }
                        if i == b {
                            break;
                        }
                        i += if down { -1 } else { 1 };
                    }
                    p.add(&stmt, r);
                }
            }
        }
        if !p.last.is_empty() {
            case.label("with errors");
        }
        last = p.last.clone();
        text += &format!("--- chunk {}\n{}", chunk, p.text);
        case.text = text.clone();
        let r = machine
            .compile(&mut p.text.as_bytes())
            .map_err(|e| format!("compile: {}", e))
            .and_then(|_| block_on(machine.exec()).map_err(|e| e.to_string()));
        let got = std::mem::take(&mut log.borrow_mut().out);
        if r != Ok(None) {
            result = Err(format!("chunk {} ended with {:?}", chunk, r));
            break;
        }
        if got != p.outs {
            result = Err(format!("chunk {} output was:\n{}\ninstead of:\n{}", chunk, got.join("\n"), p.outs.join("\n")));
            break;
        }
        if let Err(e) = compare_pins(&pins, &model) {
            result = Err(format!("after chunk {}: {}", chunk, e));
            break;
        }
        if s.chance(1, 3) {
            // Starting over resets the pins, whether that works or not, and nothing else.
            machine.clear();
            text += "--- machine cleared\n";
            case.label("cleared");
            let _ = model.act("clear_all".to_owned(), -1);
            if let Err(e) = compare_pins(&pins, &model) {
                result = Err(format!("after clearing the machine: {}", e));
                break;
            }
            // The prelude is gone.
            break;
        }
    }
    if mock {
        case.label("mock backend");
    }
    case.set_text(text);
    case.nontrivial = kinds.count_ones() >= 3;
    result
}

fn compare_pins(pins: &Rc<RefCell<dyn Pins>>, model: &Backend) -> CaseResult {
    let pins = pins.borrow();
    let (got, want) = match model {
        Backend::Rec(r) => (pins.as_any().downcast_ref::<RecPins>().unwrap().ops.clone(), r.ops.clone()),
        Backend::Mock(_, t) => {
            let f = |v: &[i32]| v.iter().map(|i| i.to_string()).collect::<Vec<_>>();
            (f(pins.as_any().downcast_ref::<MockPins>().unwrap().trace()), f(t))
        }
    };
    if got != want {
        return Err(format!("pins got:\n{}\ninstead of:\n{}", got.join("\n"), want.join("\n")));
    }
    Ok(())
}

// ---- S09: time and sound

/// Whether `d` is `secs` as closely as it can be represented.
fn is_duration(d: Duration, secs: f64) -> bool {
    (d.as_secs_f64() - secs).abs() <= 1e-9f64.max(secs * 1e-15)
}

/// A duration: its source and value.
fn dur_arg(s: &mut Src) -> (String, f64) {
    match s.below(8) {
        0 | 1 => {
            let i = s.range(0, 20);
            (i.to_string(), i as f64)
        }
        2 => {
            let i = *s.pick(&[-1, -5, -2147483647, 2147483647, 0]);
            (i.to_string(), f64::from(i))
        }
        3 => {
            let ms = s.range(0, 5000);
            (format!("{}.{:03}", ms / 1000, ms % 1000), ms as f64 / 1000.0)
        }
        4 => {
            let d = *s.pick(&[0.0, 0.5, 1e-9, 0.25, 4e-10, -1e-9, -0.5, 1e15, 18446744073709549568.0, 18446744073709551616.0, 1e300]);
            (double(d), d)
        }
        5 => {
            let d = some_double(s);
            (double(d), d)
        }
        6 => ("(10.0 ^ 308 * 10.0)".to_owned(), f64::INFINITY),
        _ => (s.pick(&["((10.0 ^ 308 * 10.0) - (10.0 ^ 308 * 10.0))", "(-(10.0 ^ 308 * 10.0))"]).to_string(), f64::NAN),
    }
}

fn double(d: f64) -> String {
    let t = format!("{}", d);
    if t.contains('.') { t } else { format!("{}.0", t) }
}

/// How the operation that takes this duration is expected to fail.
fn dur_error(text: &str, d: f64, neg: &str, invalid: &str) -> Option<String> {
    if text.starts_with("(-") || d < 0.0 {
        Some(neg.to_owned())
    } else if d.is_nan() || d.is_infinite() || d >= 18446744073709551616.0 {
        Some(invalid.to_owned())
    } else {
        None
    }
}

fn time_and_sound(s: &mut Src, case: &mut Case) -> CaseResult {
    let mut p = Prog::new();
    p.text = format!("{}{}", PRELUDE, p.text);
    p.line += PRELUDE.lines().count();
    let mut sleeps: Vec<f64> = vec![];
    let mut tones: Vec<(i32, f64)> = vec![];
    let mut kinds = 0u32;
    let fail_in = if s.chance(1, 4) { Some(s.below(6)) } else { None };
    let mut left = fail_in;
    let mut play = |pitch: i32, d: f64| -> Result<(), String> {
        if let Some(n) = left {
            if n == 0 {
                return Err("Injected console failure".to_owned());
            }
            left = Some(n - 1);
        }
        tones.push((pitch, d));
        Ok(())
    };
    for _ in 0..s.range(1, 10) {
        let kind = s.weighted(&[4, 4, 2, 1, 2]);
        kinds |= 1 << kind;
        match kind {
            0 => {
                let (t, d) = dur_arg(s);
                let r = match dur_error(&t, d, "Sleep time must be positive", "Invalid sleep time: cannot convert float seconds to Duration: value is either too big or NaN") {
                    Some(e) => Err((7 + lead(&t), e)),
                    None => {
                        sleeps.push(d);
                        Ok(vec![])
                    }
                };
                p.add(&format!("SLEEP {}", t), r);
            }
            1 => {
                let n = match s.below(5) {
                    0 => *s.pick(&[0, -1, 2147483646, -2147483646, 65536]),
                    _ => s.range(1, 2000),
                };
                let (a, pitch) = int_arg(s, n);
                let (t, d) = dur_arg(s);
                let col = "SOUND ".len() + a.len() + 3;
                let r = match pitch {
                    Err(e) => Err((7 + lead(&a), e)),
                    Ok(f) if f <= 0 => Err((7 + lead(&a), "Pitch must be positive".to_owned())),
                    Ok(f) => match dur_error(&t, d, "Duration must be positive", "Invalid duration: cannot convert float seconds to Duration: value is either too big or NaN") {
                        Some(e) => Err((col + lead(&t), e)),
                        None => play(f, d).map(|_| vec![]).map_err(|e| (1, e)),
                    },
                };
                p.add(&format!("SOUND {}, {}", a, t), r);
            }
            2 => {
                let r = play(800, 0.25).map(|_| vec![]).map_err(|e| (1, e));
                p.add("BEEP", r);
            }
            3 => {
                let n = s.range(0, 3);
                let mut r = Ok(vec![]);
                let stmt = format!("FOR i = 1 TO {}: SOUND i * 100, i / 2.0: SLEEP i: NEXT", n);
                for i in 1..=n {
                    if let Err(e) = play(i as i32 * 100, i as f64 / 2.0) {
                        r = Err((stmt.find("SOUND").unwrap() + 1, e));
                    }
                    sleeps.push(i as f64);
                }
                p.add(&stmt, r);
            }
            _ => {
                // Time never goes back and advances by what was slept.
                let d = s.range(0, 4000) as f64 / 8.0;
                sleeps.push(d);
                let stmt = format!("t0 = MONOTONIC: SLEEP {}: OUT ABS((MONOTONIC - t0) - {}) < 0.001, MONOTONIC >= t0", double(d), double(d));
                // Distant times have no precision left.
                if sleeps.iter().sum::<f64>() > 1e9 {
                    sleeps.pop();
                    continue;
                }
                p.add(&stmt, Ok(vec!["true? , true?".to_owned()]));
            }
        }
    }
    case.set_text(format!("{}--- console fails after {:?} operations", p.text, fail_in));
    case.nontrivial = kinds.count_ones() >= 2;
    if !p.last.is_empty() {
        case.label("with errors");
    }
    if fail_in.is_some() {
        case.label("failing console");
    }
    with_shared(|sut| {
        sut.con.borrow_mut().fail_in = fail_in;
        let r = sut.run(&p.text);
        sut.con.borrow_mut().fail_in = None;
        let got = sut.take_out();
        let ev = sut.con.borrow_mut().take();
        let slept = sut.clock.sleeps.borrow().clone();
        if r != Ok(None) {
            return Err(format!("program ended with {:?}", r));
        }
        if got != p.outs {
            return Err(format!("output was:\n{}\ninstead of:\n{}", got.join("\n"), p.outs.join("\n")));
        }
        if slept.len() != sleeps.len() || slept.iter().zip(&sleeps).any(|(g, w)| !is_duration(*g, *w)) {
            return Err(format!("slept {:?} instead of {:?}", slept, sleeps));
        }
        let parse = |e: &String| -> Option<(i32, f64)> {
            let mut it = e.strip_prefix("tone ")?.split(' ');
            let f = it.next()?.parse().ok()?;
            let d = it.next()?;
            let (v, unit) = d.split_at(d.find(|c: char| c.is_alphabetic() || c == 'µ')?);
            let v: f64 = v.parse().ok()?;
            let scale = match unit {
                "s" => 1.0,
                "ms" => 1e-3,
                "µs" => 1e-6,
                "ns" => 1e-9,
                _ => return None,
            };
            Some((f, v * scale))
        };
        let heard: Option<Vec<(i32, f64)>> = ev.iter().map(parse).collect();
        let same = |h: &Vec<(i32, f64)>| {
            h.len() == tones.len()
                && h.iter().zip(&tones).all(|(g, w)| g.0 == w.0 && (g.1 - w.1).abs() <= 1e-9f64.max(w.1 * 1e-14))
        };
        if !heard.as_ref().is_some_and(same) {
            return Err(format!("console got {:?} instead of tones {:?}", ev, tones));
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    let _ = V::B(true);
    vec![
        Prop {
            id: "S08",
            rule: "the program has at least three kinds of GPIO statements",
            quick: 200_000,
            thorough: 10_000_000,
            run: gpio,
            assumptions: &[
                "failures of the hardware are injected by operation number",
            ],
        },
        Prop {
            id: "S09",
            rule: "the program has at least two kinds of statements",
            quick: 400_000,
            thorough: 20_000_000,
            run: time_and_sound,
            assumptions: &["durations are compared within a nanosecond or the precision of a double"],
        },
    ]
}
