//! V03: the command line tool.

use crate::engine::*;
use endbasic_std::console::{ConsoleSpec, Resolution};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

// ---- Running the real binary

/// A scratch directory that is removed when done with.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(what: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("vp-{}-{}-{}", what, std::process::id(), n));
        std::fs::create_dir_all(&dir).expect("cannot create scratch directory");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn binary() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("endbasic")
}

pub struct Outcome {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

/// Runs the tool with the given arguments in `dir`.
pub fn run_tool(args: &[String], stdin: &[u8], dir: &Path) -> Result<Outcome, String> {
    let mut child = Command::new(binary())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("HOME", dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot run the tool: {}", e))?;
    let mut input = child.stdin.take().unwrap();
    let data = stdin.to_vec();
    let feeder = std::thread::spawn(move || {
        let _ = input.write_all(&data);
    });
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    let outr = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = out.read_to_end(&mut v);
        v
    });
    let errr = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if start.elapsed() > Duration::from_secs(60) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            Err(e) => return Err(format!("cannot wait for the tool: {}", e)),
        }
    };
    let _ = feeder.join();
    let out = String::from_utf8_lossy(&outr.join().unwrap()).into_owned();
    let err = String::from_utf8_lossy(&errr.join().unwrap()).into_owned();
    match status {
        None => Err(format!("the tool did not end; it printed {:?}", out)),
        Some(s) => Ok(Outcome { code: s.code(), out, err }),
    }
}

// ---- Property lines and console specifications

/// Line of `data` that starts at `at`, without its terminator, and the position of the next.
fn raw_line(data: &[u8], at: usize) -> Option<(Result<String, ()>, usize)> {
    if at >= data.len() {
        return None;
    }
    let end = data[at..].iter().position(|b| *b == b'\n').map(|p| at + p);
    let (mut line, next) = match end {
        Some(e) => (&data[at..e], e + 1),
        None => (&data[at..], data.len()),
    };
    // Carriage returns only count as part of the terminator of a full line.
    if end.is_some() && line.last() == Some(&b'\r') {
        line = &line[..line.len() - 1];
    }
    Some((String::from_utf8(line.to_vec()).map_err(|_| ()), next))
}

/// What the property line of a script asks for.
#[derive(Debug, PartialEq)]
enum Prop2 {
    Nothing,
    Console(String),
    Bad(String),
    NotText,
}

fn model_propline(data: &[u8]) -> Prop2 {
    let Some((first, next)) = raw_line(data, 0) else {
        return Prop2::Nothing;
    };
    let Ok(first) = first else {
        return Prop2::NotText;
    };
    if !first.starts_with("#!") {
        return Prop2::Nothing;
    }
    let Some((second, _)) = raw_line(data, next) else {
        return Prop2::Nothing;
    };
    let Ok(second) = second else {
        return Prop2::NotText;
    };
    let lower: String = second.chars().take(4).collect::<String>().to_ascii_lowercase();
    let rest: String = if second.starts_with("' ") {
        second.chars().skip(2).collect()
    } else if lower == "rem " {
        second.chars().skip(4).collect()
    } else {
        return Prop2::Nothing;
    };
    match rest.strip_prefix("endbasic cli: ") {
        None => Prop2::Nothing,
        Some(p) => match p.strip_prefix("console=") {
            None => Prop2::Bad(format!("Invalid EndBASIC propline: {}", second)),
            Some("") => {
                Prop2::Bad("Invalid EndBASIC propline: missing console specification".to_owned())
            }
            Some(c) => Prop2::Console(c.to_owned()),
        },
    }
}

fn gen_script_head(s: &mut Src) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let eol: &[u8] = if s.chance(1, 5) { b"\r\n" } else { b"\n" };
    if !s.chance(1, 8) {
        v.extend(
            s.pick(&[
                "#!/usr/bin/env endbasic",
                "#!",
                "#! x",
                " #!",
                "#",
                "' endbasic cli: console=a",
                "#!\u{e9}",
                "#!\r",
            ])
            .as_bytes(),
        );
        if s.chance(1, 10) {
            v.push(0xff);
        }
        if s.chance(1, 15) {
            return v;
        }
    }
    v.extend(eol);
    const PIECES: [&str; 22] = [
        "' ", "REM ", "rem ", "ReM ", "'", "REM", "endbasic cli: ", "endbasic cli:", "console=", "console",
        "sdl", "text", ":fs", "\u{e9}", "\u{20ac}", "r", "e", "m", " ", "EndBASIC cli: ", "=", "\u{1f600}",
    ];
    match s.idx(4) {
        0 => {
            v.extend(s.pick(&["' ", "REM ", "rEm "]).as_bytes());
            v.extend(b"endbasic cli: console=");
            v.extend(s.pick(&["text", "sdl:a=b", "", "x y", "\u{e9}", "console="]).as_bytes());
        }
        _ => {
            for _ in 0..s.range(0, 6) {
                v.extend(s.pick(&PIECES).as_bytes());
            }
        }
    }
    if s.chance(1, 12) {
        let at = s.idx(v.len() + 1);
        v.insert(at, s.below(256) as u8);
    }
    if !s.chance(1, 6) {
        v.extend(eol);
        if s.chance(1, 2) {
            v.extend(b"' endbasic cli: console=other\n");
        }
    }
    v
}

fn propline_case(s: &mut Src, case: &mut Case) -> CaseResult {
    let data = gen_script_head(s);
    case.set_text(format!("script head {:?}", String::from_utf8_lossy(&data)));
    let dir = Scratch::new("prop");
    let path = dir.0.join("x.bas");
    std::fs::write(&path, &data).map_err(|e| e.to_string())?;
    let want = model_propline(&data);
    case.nontrivial = want != Prop2::Nothing;
    let got = match endbasic::extract_propline(&path) {
        Ok(p) => match p.console_spec {
            None => Prop2::Nothing,
            Some(c) => Prop2::Console(c),
        },
        Err(e) if e.kind() == std::io::ErrorKind::InvalidData => Prop2::NotText,
        Err(e) => Prop2::Bad(e.to_string()),
    };
    if got != want {
        return Err(format!("property line is {:?} instead of {:?}", got, want));
    }
    Ok(())
}

fn model_u32(t: &str) -> Option<u32> {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for b in d.bytes() {
        v = (v * 10 + u64::from(b - b'0')).min(1 << 40);
    }
    u32::try_from(v).ok()
}

fn model_resolution(t: &str) -> Option<(Option<(u32, u32)>, bool)> {
    if t == "fs" {
        return Some((None, true));
    }
    let (dims, fs) = match t.strip_suffix("fs") {
        Some(d) => (d, true),
        None => (t, false),
    };
    let x = dims.find('x')?;
    let w = model_u32(&dims[..x])?;
    let h = model_u32(&dims[x + 1..])?;
    if w == 0 || h == 0 {
        return None;
    }
    Some((Some((w, h)), fs))
}

fn gen_resolution(s: &mut Src) -> String {
    if s.chance(1, 2) {
        let w = s.pick(&["1", "100", "4294967295", "640"]);
        let h = s.pick(&["1", "200", "4294967295", "480"]);
        return format!("{}x{}{}", w, h, if s.chance(1, 2) { "fs" } else { "" });
    }
    let mut t = String::new();
    for _ in 0..s.range(0, 5) {
        t.push_str(s.pick(&[
            "x", "fs", "0", "10", "4294967296", "+5", "-1", " ", "f", "s", "\u{e9}", "X",
        ]));
    }
    t
}

fn spec_case(s: &mut Src, case: &mut Case) -> CaseResult {
    const NAMES: [&str; 6] = ["a", "b", "fs", "resolution", "\u{e9}", "A"];
    let driver = *s.pick(&["text", "sdl", "", "\u{e9}x", "a=b"]);
    let mut spec = driver.to_owned();
    let mut flags: Vec<String> = vec![];
    let mut keyed: BTreeMap<String, String> = BTreeMap::new();
    if s.chance(4, 5) || driver.is_empty() {
        spec.push(':');
        let n = s.range(0, 6);
        let mut parts: Vec<String> = vec![];
        for _ in 0..n {
            let name = *s.pick(&NAMES);
            match s.idx(4) {
                0 => {
                    if !flags.contains(&name.to_owned()) {
                        flags.push(name.to_owned());
                    }
                    parts.push(name.to_owned());
                }
                1 => parts.push(String::new()),
                _ => {
                    let v = match s.idx(4) {
                        0 => gen_resolution(s).replace(',', ""),
                        1 => s.range(-3, 300).to_string(),
                        2 => (*s.pick(&["TRUE", "x=y", "", "a:b", "=", "\u{e9}"])).to_owned(),
                        _ => gen_resolution(s),
                    };
                    keyed.insert(name.to_owned(), v.clone());
                    parts.push(format!("{}={}", name, v));
                }
            }
        }
        spec.push_str(&parts.join(","));
    }
    let mut log = vec![];
    let mut ops: Vec<(usize, &str)> = vec![];
    for _ in 0..s.range(0, 6) {
        ops.push((s.idx(4), *s.pick(&NAMES)));
    }
    case.set_text(format!("spec {:?} queried with {:?}", spec, ops));
    case.nontrivial = !flags.is_empty() || !keyed.is_empty();
    let mut p = ConsoleSpec::init(&spec);
    if p.driver != driver {
        return Err(format!("driver is {:?}", p.driver));
    }
    for (op, name) in ops {
        match op {
            0 => {
                let want = flags.iter().any(|f| f == name);
                flags.retain(|f| f != name);
                let got = p.take_flag(name);
                if got != want {
                    return Err(format!("flag {} is {}", name, got));
                }
            }
            1 => {
                let want = keyed.remove(name);
                let got = p.take_keyed_flag_str(name);
                if got != want.as_deref() {
                    return Err(format!("flag {} is {:?} instead of {:?}", name, got, want));
                }
            }
            2 => {
                let want = keyed.remove(name);
                let got = p.take_keyed_flag::<u8>(name);
                let ok = match (&want, &got) {
                    (None, Ok(None)) => true,
                    (Some(w), Ok(Some(g))) => model_u32(w) == Some(u32::from(*g)),
                    (Some(w), Err(e)) => {
                        model_u32(w).is_none_or(|v| v > 255)
                            && e.to_string().starts_with(&format!("Invalid console flag {}: ", name))
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("number of flag {}: {:?} for {:?}", name, got, want));
                }
            }
            _ => {
                let want = keyed.remove(name);
                let got = p.take_keyed_flag::<Resolution>(name);
                let ok = match (&want, &got) {
                    (None, Ok(None)) => true,
                    (Some(w), Ok(Some(g))) => {
                        let g = match g {
                            Resolution::FullScreenDesktop => (None, true),
                            Resolution::FullScreen((w, h)) => (Some((w.get(), h.get())), true),
                            Resolution::Windowed((w, h)) => (Some((w.get(), h.get())), false),
                        };
                        model_resolution(w) == Some(g)
                    }
                    (Some(w), Err(e)) => {
                        model_resolution(w).is_none()
                            && e.to_string().starts_with(&format!("Invalid console flag {}: Invalid ", name))
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("resolution of flag {}: {:?} for {:?}", name, got, want));
                }
            }
        }
        log.push(op);
    }
    let mut left: Vec<String> = flags;
    left.extend(keyed.into_keys());
    left.sort();
    let got = p.finish().map_err(|e| e.to_string());
    let want = if left.is_empty() {
        Ok(())
    } else {
        Err(format!("Console driver {} does not recognize flags: {}", driver, left.join(", ")))
    };
    if got != want {
        return Err(format!("left-overs are {:?} instead of {:?}", got, want));
    }
    Ok(())
}

// ---- Scripts

/// How a script ends.
#[derive(Clone, Debug, PartialEq)]
enum Fin {
    Code(i32),
    Fail(String),
}

/// A program, what it is given and what it does.
struct Script {
    lines: Vec<String>,
    stdin: Vec<u8>,
    out: String,
    fin: Fin,
    /// Whether it uses commands that only exist in interactive mode.
    interactive: Option<(usize, usize, &'static str)>,
    /// Whether a file has to be copied.
    copies: bool,
}

fn gen_text(s: &mut Src) -> String {
    let n = s.range(0, 6);
    (0..n)
        .map(|_| {
            *s.pick(&[
                'a', 'b', ' ', '1', '\'', ':', '\u{e9}', '\u{20ac}', '\u{1f600}', '"', '\\', ';', '%',
            ])
        })
        .collect()
}

pub fn quote(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

/// What a number looks like when it follows something else with no separation.
fn num(i: i32) -> String {
    if i < 0 { i.to_string() } else { format!(" {}", i) }
}

/// A line of input and the text that the program gets.
fn gen_input_line(s: &mut Src) -> (Vec<u8>, String) {
    let mut raw = vec![];
    let mut text = String::new();
    for _ in 0..s.range(0, 6) {
        match s.idx(8) {
            0 => {
                raw.push(0x1b);
            }
            1 => {
                raw.extend(b"\t");
                text.push('?');
            }
            2 => {
                raw.push(0x01);
                text.push('?');
            }
            3 => raw.push(b'\r'),
            _ => {
                let c = *s.pick(&['a', ' ', 'Z', '"', '\u{e9}', '\u{1f600}', ',']);
                let mut b = [0; 4];
                raw.extend(c.encode_utf8(&mut b).as_bytes());
                text.push(c);
            }
        }
    }
    raw.push(b'\n');
    // INPUT ignores blanks at the end.
    (raw, text.trim_end().to_owned())
}

fn gen_script(s: &mut Src, head: Vec<String>, interactive: bool) -> Script {
    let mut p = Script {
        lines: head,
        stdin: vec![],
        out: String::new(),
        fin: Fin::Code(0),
        interactive: None,
        copies: false,
    };
    let mut given: Vec<u8> = vec![];
    let n = s.range(1, 9);
    let mut ended = false;
    for k in 0..n {
        let indent = if s.chance(1, 3) { s.range(1, 4) as usize } else { 0 };
        let pad = " ".repeat(indent);
        let line = p.lines.len() + 1;
        let mut compile_error: Option<String> = None;
        let mut out = String::new();
        let mut fin = None;
        let text = match s.idx(13) {
            0 | 1 => {
                let t = gen_text(s);
                out = format!("{}\n", t);
                format!("PRINT {}", quote(&t))
            }
            2 => {
                let t = gen_text(s);
                let i = s.range(-50, 50) as i32;
                out = format!("{}{}\n", t, num(i));
                format!("x{} = {}: PRINT {}; x{}", k, i, quote(&t), k)
            }
            3 => {
                let c = s.range(0, 3) as i32;
                out = (1..=c).map(|i| format!("i{}\n", num(i))).collect();
                format!("FOR i = 1 TO {}: PRINT \"i\"; i: NEXT", c)
            }
            4 => {
                if s.chance(1, 8) {
                    // No input left.
                    fin = Some(Fin::Fail(format!("{}:{}: EOF", line, indent + 1)));
                    // Whatever else was to be read would not be.
                    "INPUT s$".to_owned()
                } else {
                    let (raw, t) = gen_input_line(s);
                    if fin.is_none() && !ended {
                        given.extend(raw);
                    }
                    out = format!("[{}]\n", t);
                    format!("INPUT s$: PRINT \"[\" + s$ + \"]\"")
                }
            }
            5 => {
                let i = s.range(-500, 500) as i32;
                if !ended {
                    given.extend(format!("{}\n", i).bytes());
                }
                out = format!("n{}\n", num(i));
                format!("INPUT n{}: PRINT \"n\"; n{}", k, k)
            }
            6 => {
                let t = gen_text(s);
                out = t.clone();
                format!("PRINT {};", quote(&t))
            }
            7 => "' nothing".to_owned(),
            8 if s.chance(1, 3) => {
                let t = gen_text(s);
                out = format!("{}\n", t);
                fin = Some(Fin::Fail(format!(
                    "{}:{}: Division by zero",
                    line,
                    indent + 11 + quote(&t).chars().count() + 4
                )));
                format!("PRINT {}: z = 1 / 0", quote(&t))
            }
            9 if s.chance(1, 3) => {
                let c = s.range(0, 127) as i32;
                if s.chance(1, 3) {
                    fin = Some(Fin::Code(0));
                    "END".to_owned()
                } else if s.chance(1, 2) {
                    fin = Some(Fin::Code(c));
                    format!("END {}", c)
                } else {
                    fin = Some(Fin::Code(c));
                    format!("c{} = {}: IF c{} > -1 THEN END c{}", k, c, k, k)
                }
            }
            10 if s.chance(1, 5) => {
                compile_error = Some(format!("{}:{}: Undefined symbol FOOBAR", line, indent + 1));
                "FOOBAR 1".to_owned()
            }
            11 if s.chance(1, 5) => {
                compile_error = Some(format!("{}:{}: Undefined symbol zz", line, indent + 7));
                "PRINT zz".to_owned()
            }
            12 if s.chance(1, 3) => {
                let (name, text) = if s.chance(1, 2) {
                    if !ended {
                        p.copies = true;
                    }
                    ("COPY", "COPY \"FROM.BAS\", \"TO.BAS\"".to_owned())
                } else {
                    ("MOUNT", format!("MOUNT \"memory://\" AS \"X{}\": UNMOUNT \"X{}\"", k, k))
                };
                if p.interactive.is_none() {
                    p.interactive = Some((line, indent + 1, name));
                }
                text
            }
            _ => {
                let t = gen_text(s);
                out = format!("{}\n", t);
                format!("IF TRUE THEN PRINT {}", quote(&t))
            }
        };
        p.lines.push(format!("{}{}", pad, text));
        if let Some(e) = compile_error {
            // Interactive-only commands that appeared earlier are reported first.
            if interactive || p.interactive.is_none() {
                p.fin = Fin::Fail(e);
                p.out = String::new();
                p.stdin = vec![];
                p.copies = false;
                return p;
            }
        }
        if !ended {
            p.out.push_str(&out);
            if let Some(f) = fin {
                p.fin = f;
                ended = true;
                p.stdin = given.clone();
            }
        }
    }
    if !ended {
        p.stdin = given;
    }
    if let Some((l, c, name)) = p.interactive
        && !interactive
    {
        p.fin = Fin::Fail(format!("{}:{}: Undefined symbol {}", l, c, name));
        p.out = String::new();
        p.copies = false;
    }
    p
}

fn check_outcome(o: &Outcome, code: i32, out: &str, err: &str) -> CaseResult {
    if o.code != Some(code) || o.out != out || o.err != err {
        return Err(format!(
            "exits with {:?}, output {:?} and errors {:?}; expected {}, {:?} and {:?}",
            o.code, o.out, o.err, code, out, err
        ));
    }
    Ok(())
}

fn script_case(s: &mut Src, case: &mut Case) -> CaseResult {
    let dir = Scratch::new("cli");
    let data = dir.0.join("data");
    std::fs::create_dir(&data).map_err(|e| e.to_string())?;
    let from = format!("' copied {}\n", s.range(0, 1000));
    std::fs::write(data.join("FROM.BAS"), &from).map_err(|e| e.to_string())?;
    let interactive = s.chance(1, 3);
    let mut head = vec![];
    // The console that the property line asks for.
    let mut console: Option<&str> = None;
    let mut head_error = None;
    if s.chance(2, 5) {
        head.push("#!/usr/bin/env endbasic".to_owned());
        match s.idx(6) {
            0 | 1 => {
                let c = *s.pick(&["text", "text:", "bogus", "text:foo", ":x"]);
                console = Some(c);
                let rem = *s.pick(&["'", "REM", "rem"]);
                head.push(format!("{} endbasic cli: console={}", rem, c));
            }
            2 => {
                let l = *s.pick(&["' endbasic cli: nope", "REM endbasic cli: "]);
                head_error = Some(format!("Invalid EndBASIC propline: {}", l));
                head.push(l.to_owned());
            }
            3 => {
                head.push("' endbasic cli: console=".to_owned());
                head_error = Some("Invalid EndBASIC propline: missing console specification".to_owned());
            }
            4 => head.push("'\u{e9}\u{e9}\u{e9}".to_owned()),
            _ => (),
        }
    }
    let p = gen_script(s, head, interactive);
    let eol = if s.chance(1, 6) { "\r\n" } else { "\n" };
    let mut body = p.lines.join(eol);
    if !s.chance(1, 6) {
        body.push_str(eol);
    }
    std::fs::write(dir.0.join("prog.bas"), &body).map_err(|e| e.to_string())?;

    // Arguments.
    let mut opts: Vec<Vec<String>> = vec![];
    if s.chance(1, 3) {
        let c = *s.pick(&["text", "text:", "bogus", "text:b=1,a", "", "text:,,"]);
        console = Some(c);
        if s.chance(1, 2) || c.is_empty() {
            opts.push(vec![format!("--console={}", c)]);
        } else {
            opts.push(vec!["--console".to_owned(), c.to_owned()]);
        }
    } else if interactive {
        // Property lines are only for non-interactive scripts.
        console = None;
    }
    if interactive {
        head_error = None;
        opts.push(vec![(*s.pick(&["-i", "--interactive"])).to_owned()]);
        opts.push(vec![format!("--local-drive=file://{}", data.display())]);
        if s.chance(1, 3) {
            opts.push(vec!["--service-url=http://127.0.0.1:1/".to_owned()]);
        }
    }
    let mut gpio = "noop";
    if s.chance(1, 4) {
        gpio = *s.pick(&["noop", "mock", "bad", ""]);
        opts.push(vec!["--gpio-pins".to_owned(), gpio.to_owned()]);
    }
    opts.push(vec!["prog.bas".to_owned()]);
    let mut args = vec![];
    while !opts.is_empty() {
        let i = s.idx(opts.len());
        args.extend(opts.remove(i));
    }
    case.set_text(format!("endbasic {:?} < {:?}\n{}", args, String::from_utf8_lossy(&p.stdin), body));

    let mut code;
    let mut out = "";
    let err;
    let mut copied = false;
    let bad_console = match console {
        None | Some("text" | "text:" | "text:,,") => None,
        Some("bogus") => Some("Unknown console driver bogus".to_owned()),
        Some("") => Some("Invalid --console flag: missing console driver".to_owned()),
        Some(":x") => Some("Unknown console driver ".to_owned()),
        Some(c) => {
            let flags = if c == "text:foo" { "foo" } else { "a, b" };
            Some(format!(
                "Invalid --console flag: Console driver text does not recognize flags: {}",
                flags
            ))
        }
    };
    if let Some(e) = head_error.or(bad_console) {
        case.label("invalid console or property line");
        code = 1;
        err = format!("endbasic: {}\n", e);
    } else if gpio == "bad" || gpio.is_empty() {
        case.label("invalid pins");
        code = 2;
        err = format!(
            "Usage error: Unknown --gpio-pins backend: {}\nType `endbasic --help` for more information\n",
            gpio
        );
    } else {
        out = &p.out;
        copied = p.copies;
        match &p.fin {
            Fin::Code(c) => {
                case.label(if *c == 0 { "script succeeds" } else { "script exits with a code" });
                code = *c;
                err = String::new();
            }
            Fin::Fail(m) => {
                case.label("script fails");
                code = 1;
                err = format!("endbasic: {}\n", m);
            }
        }
        if interactive {
            case.label("interactive script");
        }
        case.nontrivial = true;
    }
    if code > 127 {
        code = 127;
    }
    let o = run_tool(&args, &p.stdin, &dir.0)?;
    check_outcome(&o, code, out, &err)?;
    let mut files: Vec<(String, Vec<u8>)> = std::fs::read_dir(&data)
        .map_err(|e| e.to_string())?
        .map(|e| e.unwrap())
        .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap()))
        .collect();
    files.sort();
    let mut want = vec![("FROM.BAS".to_owned(), from.clone().into_bytes())];
    if copied {
        want.push(("TO.BAS".to_owned(), from.into_bytes()));
    }
    if files != want {
        return Err(format!("the local drive has {:?} instead of {:?}", files, want));
    }
    Ok(())
}

/// What the interpreter shows on start.
fn banner() -> Result<String, String> {
    static BANNER: OnceLock<Result<String, String>> = OnceLock::new();
    BANNER
        .get_or_init(|| {
            let dir = Scratch::new("cli");
            let o = run_tool(&["--local-drive=memory://".to_owned()], b"END\n", &dir.0)?;
            if o.code != Some(0) || !o.err.is_empty() || !o.out.contains("EndBASIC") {
                return Err(format!("starting shows {:?} and {:?}, {:?}", o.out, o.err, o.code));
            }
            Ok(o.out)
        })
        .clone()
}

fn repl_case(s: &mut Src, case: &mut Case) -> CaseResult {
    let dir = Scratch::new("cli");
    let data = dir.0.join("data");
    std::fs::create_dir(&data).map_err(|e| e.to_string())?;
    let mut out = banner()?;
    let mut shown = String::new();
    if s.chance(1, 2) {
        // AUTOEXEC.BAS runs first and shares its variables with the session.
        let t = gen_text(s);
        let (body, o) = match s.idx(5) {
            0 => (
                format!("PRINT {}\ny = 1 / 0\nPRINT 3\n", quote(&t)),
                format!("{}\nAUTOEXEC.BAS failed: 2:7: Division by zero\n", t),
            ),
            1 => (
                "PRINT 1\n  FOOBAR\n".to_owned(),
                "AUTOEXEC.BAS failed: 2:3: Undefined symbol FOOBAR\n".to_owned(),
            ),
            2 => (format!("PRINT {}\nEND 3\nPRINT 2\n", quote(&t)), format!("{}\n", t)),
            _ => (format!("PRINT {}\n", quote(&t)), format!("{}\n", t)),
        };
        std::fs::write(data.join("AUTOEXEC.BAS"), &body).map_err(|e| e.to_string())?;
        out.push_str(&o);
        shown = format!("AUTOEXEC.BAS:\n{}", body);
        case.label("startup file");
    }
    let mut stdin: Vec<u8> = vec![];
    let mut code = None;
    let mut x: Option<i32> = None;
    for k in 0..s.range(0, 8) {
        match s.idx(8) {
            0 => {
                let t = gen_text(s);
                stdin.extend(format!("PRINT {}\n", quote(&t)).bytes());
                out.push_str(&format!("{}\n", t));
            }
            1 => {
                let i = s.range(-9, 9) as i32;
                stdin.extend(format!("x = {}\n", i).bytes());
                x = Some(i);
            }
            2 => {
                stdin.extend(b"PRINT \"x\"; x\n");
                match x {
                    Some(i) => out.push_str(&format!("x{}\n", num(i))),
                    None => out.push_str("ERROR: 1:12: Undefined symbol x\n"),
                }
            }
            3 => {
                stdin.extend(format!("PRINT \"a\": PRINT {} / 0: PRINT \"b\"\n", k).bytes());
                out.push_str("a\nERROR: 1:20: Division by zero\n");
            }
            4 => {
                let (raw, t) = gen_input_line(s);
                stdin.extend(b"INPUT s$: PRINT \"<\" + s$ + \">\"\n");
                stdin.extend(raw);
                out.push_str(&format!("<{}>\n", t));
            }
            5 => {
                stdin.extend(b"  FOOBAR\n");
                out.push_str("ERROR: 1:3: Undefined symbol FOOBAR\n");
            }
            6 if s.chance(1, 3) => {
                let c = s.range(0, 127) as i32;
                if s.chance(1, 4) {
                    stdin.extend(b"END\n");
                    code = Some(0);
                } else {
                    stdin.extend(format!("END {}\n", c).bytes());
                    code = Some(c);
                }
                // The rest is not read.
                if s.chance(1, 2) {
                    stdin.extend(b"PRINT 1\n");
                }
                break;
            }
            _ => stdin.extend(b"\n"),
        }
    }
    if code.is_none() {
        out.push_str("End of input by CTRL-D\n");
    }
    let args = vec![format!("--local-drive=file://{}", data.display())];
    case.set_text(format!("{}session:\n{}", shown, String::from_utf8_lossy(&stdin)));
    case.label("session");
    case.nontrivial = true;
    let o = run_tool(&args, &stdin, &dir.0)?;
    check_outcome(&o, code.unwrap_or(0), &out, "")
}

fn usage_case(s: &mut Src, case: &mut Case) -> CaseResult {
    let dir = Scratch::new("cli");
    std::fs::write(dir.0.join("a.bas"), "PRINT 1\n").map_err(|e| e.to_string())?;
    std::fs::write(dir.0.join("bad.bas"), b"PRINT \"\xff\"\n").map_err(|e| e.to_string())?;
    std::fs::create_dir(dir.0.join("d")).map_err(|e| e.to_string())?;
    const U: &str = "\nType `endbasic --help` for more information\n";
    let cases: [(&[&str], i32, String); 11] = [
        (&["a.bas", "b.bas"], 2, format!("Usage error: Too many arguments{}", U)),
        (&["--foo"], 2, format!("Usage error: Unrecognized option: 'foo'{}", U)),
        (&["--console"], 2, format!("Usage error: Argument to option 'console' missing{}", U)),
        (&["--gpio-pins=rppal", "a.bas"], 2, format!("Usage error: --gpio-pins=rppal requires the rpi feature to be compiled in{}", U)),
        (&["--console=sdl", "a.bas"], 1, "endbasic: SDL support not compiled in\n".to_owned()),
        (&["--console=st7735s", "a.bas"], 1, "endbasic: ST7735S support not compiled in\n".to_owned()),
        (&["missing.bas"], 1, "endbasic: No such file or directory (os error 2)\n".to_owned()),
        (&["d"], 1, "endbasic: Is a directory (os error 21)\n".to_owned()),
        (&["bad.bas"], 1, "*".to_owned()),
        (&["-i", "--local-drive=foo", "a.bas"], 1, "*".to_owned()),
        (&["-i", "--local-drive=foo://x", "a.bas"], 1, "*".to_owned()),
    ];
    let (args, code, err) = s.pick(&cases).clone();
    let args: Vec<String> = args.iter().map(|a| (*a).to_owned()).collect();
    case.set_text(format!("endbasic {:?}", args));
    case.label("usage error");
    let o = run_tool(&args, b"", &dir.0)?;
    if err == "*" {
        if o.code != Some(code) || !o.out.is_empty() || !o.err.starts_with("endbasic: ") {
            return Err(format!("exits with {:?}, output {:?} and errors {:?}", o.code, o.out, o.err));
        }
        return Ok(());
    }
    check_outcome(&o, code, "", &err)
}

fn bytes_case(s: &mut Src, case: &mut Case) -> CaseResult {
    let dir = Scratch::new("cli");
    let mut v: Vec<u8> = vec![];
    if s.chance(1, 2) {
        v.extend(gen_script_head(s));
    }
    const PIECES: [&str; 30] = [
        "PRINT", " ", "\n", "\"", "'", "REM ", "INPUT", "x", "=", "1", "(", ")", ":", ";", ",", "IF", "THEN",
        "END", "+", "\\", "\u{e9}", "FOR", "NEXT", "DIM", "$", "&x", "@", "DATA ", "SELECT CASE", "\r\n",
    ];
    for _ in 0..s.range(0, 20) {
        if s.chance(1, 8) {
            v.push(s.below(256) as u8);
        } else {
            v.extend(s.pick(&PIECES).as_bytes());
        }
    }
    std::fs::write(dir.0.join("a.bas"), &v).map_err(|e| e.to_string())?;
    case.set_text(format!("script {:?}", String::from_utf8_lossy(&v)));
    case.label("arbitrary script");
    let o = run_tool(&["a.bas".to_owned()], b"1\n2\n", &dir.0)?;
    match o.code {
        Some(0) if o.err.is_empty() => Ok(()),
        Some(1) if o.err.starts_with("endbasic: ") && o.err.lines().count() >= 1 => Ok(()),
        Some(1..128) if o.err.is_empty() => Ok(()),
        _ => Err(format!("exits with {:?}, output {:?} and errors {:?}", o.code, o.out, o.err)),
    }
}

pub fn cli(s: &mut Src, case: &mut Case) -> CaseResult {
    match s.weighted(&[40, 20, 5, 3, 1, 2]) {
        0 => propline_case(s, case),
        1 => spec_case(s, case),
        2 => script_case(s, case),
        3 => repl_case(s, case),
        4 => usage_case(s, case),
        _ => bytes_case(s, case),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "V03",
        rule: "Property lines of random scripts and random console specifications against models; and runs of the real binary (built from /repo/cli) with random arguments: scripts (with their input, console, pins, property line and local drive), sessions with a startup file, usage errors, and arbitrary bytes as scripts. Exit code, standard output, standard error and the files of the local drive must be the modelled ones. Non-trivial: the property line says something, the specification has flags, or the tool runs a program.",
        quick: 150_000,
        thorough: 4_000_000,
        run: cli,
        assumptions: &["The tool is built with its default features."],
    }]
}
