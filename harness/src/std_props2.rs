//! Properties of the commands of the standard library that talk to the console or hold state.

use crate::engine::*;
use crate::std_props::{V, num_text, quote, some_double, some_int, some_text};
use crate::std_sut::*;
use crate::ui_props::show_keys;
use endbasic_std::console::*;

/// Source code of a value.
fn lit(v: &V) -> String {
    match v {
        V::B(b) => (if *b { "TRUE" } else { "FALSE" }).to_owned(),
        V::I(i32::MIN) => "(-2147483647 - 1)".to_owned(),
        V::I(i) => format!("{}", i),
        V::D(d) => {
            let s = format!("{}", d);
            if s.contains('.') { s } else { format!("{}.0", s) }
        }
        V::T(s) => quote(s),
    }
}

fn show(v: &V) -> String {
    match v {
        V::B(b) => format!("{}?", b),
        V::I(i) => format!("{}%", i),
        V::D(d) => format!("{:?}#", d),
        V::T(s) => format!("{:?}$", s),
    }
}

fn value(s: &mut Src) -> V {
    match s.below(5) {
        0 => V::I(some_int(s)),
        1 => V::D(some_double(s)),
        2 => V::B(s.chance(1, 2)),
        _ => V::T(some_text(s, 40)),
    }
}

fn display(v: &V) -> String {
    match v {
        V::B(true) => "TRUE".to_owned(),
        V::B(false) => "FALSE".to_owned(),
        V::T(t) => t.clone(),
        n => num_text(n),
    }
}

// ---- S03: text console commands

const KEYS: &[(Key, &str)] = &[
    (Key::ArrowDown, "DOWN"),
    (Key::ArrowLeft, "LEFT"),
    (Key::ArrowRight, "RIGHT"),
    (Key::ArrowUp, "UP"),
    (Key::Backspace, "BS"),
    (Key::CarriageReturn, "ENTER"),
    (Key::Delete, "DEL"),
    (Key::End, "END"),
    (Key::EofOrDelete, "EOF"),
    (Key::Escape, "ESC"),
    (Key::Home, "HOME"),
    (Key::NewLine, "ENTER"),
    (Key::PageDown, "PGDOWN"),
    (Key::PageUp, "PGUP"),
    (Key::Tab, "TAB"),
    (Key::Unknown, "?"),
];

/// The text typed for an INPUT of the given type; mostly valid.
fn typed(s: &mut Src, ty: char) -> String {
    match (ty, s.below(6)) {
        (_, 0) => some_text(s, 10),
        ('%', _) => s
            .pick(&["5", "-3", "+7", "2147483647", "2147483648", "-2147483648", "1.5", "0x10", "", "12 ", "007", "1e3", "- 1"])
            .to_string(),
        ('#', _) => s
            .pick(&["5", "-3.25", "+7.5", "1e3", ".5", "5.", "", "1.5  ", "1,5", "0.1", "-", "1e400", "12x"])
            .to_string(),
        ('?', _) => s
            .pick(&["TRUE", "true", "Yes", "y", "N", "no", "False", "f", "t", "1", "0", "", "yes  ", "nope"])
            .to_string(),
        _ => s.pick(&["hello", "hello  ", "  x", "a,b", "\"q\"", ""]).to_string(),
    }
}

fn parse_typed(ty: char, raw: &str) -> Result<V, String> {
    let t = raw.trim_end();
    match ty {
        '%' => t
            .parse::<i32>()
            .map(V::I)
            .map_err(|_| format!("Invalid integer literal {}", t)),
        '#' => t
            .parse::<f64>()
            .map(V::D)
            .map_err(|_| format!("Invalid double-precision floating point literal {}", t)),
        '?' => match t.to_uppercase().as_str() {
            "TRUE" | "YES" | "Y" => Ok(V::B(true)),
            "FALSE" | "NO" | "N" => Ok(V::B(false)),
            _ => Err(format!("Invalid boolean literal {}", t)),
        },
        _ => Ok(V::T(t.to_owned())),
    }
}

fn console_cmds(s: &mut Src, case: &mut Case) -> CaseResult {
    let interactive = s.chance(1, 3);
    // The longest prompts must leave space to type.
    let size = (s.range(if interactive { 61 } else { 5 }, 90) as u16, s.range(1, 40) as u16);
    let mut prog = String::from("ON ERROR RESUME NEXT\n");
    let mut line = 1;
    let mut events: Vec<String> = vec![];
    let mut outs: Vec<String> = vec![];
    let mut keys: Vec<Key> = vec![];
    let mut last = String::new();
    let mut kinds = 0u32;
    for _ in 0..s.range(1, 8) {
        line += 1;
        let kind = s.weighted(&[10, 3, 3, 1, 2, 4, 1]);
        kinds |= 1 << kind;
        match kind {
            0 => {
                // PRINT
                let mut stmt = String::from("PRINT");
                let mut text = String::new();
                let n = s.range(0, 6);
                let mut nl = true;
                for k in 0..n {
                    let v = if s.chance(1, 6) { None } else { Some(value(s)) };
                    stmt.push(' ');
                    if let Some(v) = &v {
                        // Non-ASCII and long texts go through variables sometimes.
                        stmt += &lit(v);
                        text += &display(v);
                        nl = true;
                    } else {
                        nl = k == 0;
                    }
                    let more = k + 1 < n || s.chance(1, 4) || v.is_none();
                    if !more {
                        break;
                    }
                    // A missing value is only visible through its separator.
                    if s.chance(1, 2) {
                        stmt += ",";
                        text.push(' ');
                        while text.chars().count() % 14 != 0 {
                            text.push(' ');
                        }
                    } else {
                        stmt += ";";
                        if !matches!(v, None | Some(V::T(_))) {
                            text.push(' ');
                        }
                    }
                    nl = false;
                }
                prog += &stmt;
                prog += "\n";
                events.push(format!("{} {}", if nl { "print" } else { "write" }, text));
            }
            1 => {
                // COLOR
                let mut stmt = String::from("COLOR");
                let mut err = None;
                let mut arg = |s: &mut Src, stmt: &mut String| {
                    let i = match s.below(5) {
                        0 => *s.pick(&[-1, 256, 255, 0, 1000000]),
                        _ => s.range(0, 15) as i32,
                    };
                    let col = stmt.len() + 1;
                    *stmt += &format!("{}", i);
                    if !(0..=255).contains(&i) {
                        err.get_or_insert(col);
                        return None;
                    }
                    Some(i as u8)
                };
                let (mut fg, mut bg) = (None, None);
                match s.below(5) {
                    0 => (),
                    1 => {
                        stmt += " ";
                        fg = arg(s, &mut stmt);
                    }
                    2 => {
                        stmt += " ";
                        fg = arg(s, &mut stmt);
                        stmt += ", ";
                        bg = arg(s, &mut stmt);
                    }
                    3 => {
                        stmt += " , ";
                        bg = arg(s, &mut stmt);
                    }
                    _ => {
                        stmt += " ";
                        fg = arg(s, &mut stmt);
                        stmt += ",";
                    }
                }
                match err {
                    Some(col) => last = format!("{}:{}: Color out of range", line, col),
                    None => events.push(format!("color {:?} {:?}", fg, bg)),
                }
                prog += &stmt;
                prog += "\n";
            }
            2 => {
                // LOCATE
                let pick = |s: &mut Src, max: u16| match s.below(6) {
                    0 => *s.pick(&[-1, 65535, 65536, 70000]),
                    1 => i32::from(max),
                    2 => i32::from(max) - 1,
                    _ => s.range(0, i64::from(max)) as i32,
                };
                let x = pick(s, size.0);
                let y = pick(s, size.1);
                let mut stmt = format!("LOCATE {}, ", x);
                let col = stmt.len() + 1;
                stmt += &format!("{}\n", y);
                prog += &stmt;
                let (w, h) = (i32::from(size.0), i32::from(size.1));
                let e = if !(0..=65535).contains(&x) {
                    Some((8, "Column out of range".to_owned()))
                } else if !(0..=65535).contains(&y) {
                    Some((col, "Row out of range".to_owned()))
                } else if x >= w {
                    Some((8, format!("Column {} exceeds visible range of {}", x, w - 1)))
                } else if y >= h {
                    Some((col, format!("Row {} exceeds visible range of {}", y, h - 1)))
                } else {
                    None
                };
                match e {
                    Some((c, m)) => last = format!("{}:{}: {}", line, c, m),
                    None => events.push(format!("locate {},{}", x, y)),
                }
            }
            3 => {
                prog += "CLS\n";
                events.push("clear All".to_owned());
            }
            4 => {
                prog += "OUT INKEY\n";
                let (k, name) = match s.below(3) {
                    0 => {
                        let c = *s.pick(&['a', 'Z', ' ', 'é', '"', '😀']);
                        (Key::Char(c), c.to_string())
                    }
                    _ => {
                        let (k, n) = s.pick(KEYS);
                        (*k, n.to_string())
                    }
                };
                keys.push(k);
                outs.push(show(&V::T(name)));
            }
            5 => {
                // INPUT
                let ty = *s.pick(&['%', '#', '?', '$']);
                let name = match ty {
                    '%' => "vi",
                    '#' => "vd",
                    '?' => "vb",
                    _ => "vt",
                };
                let prompt = match s.below(4) {
                    0 => None,
                    1 => Some((some_text(s, 4), true)),
                    2 => Some((String::new(), s.chance(1, 2))),
                    _ => Some(("ab".to_owned(), false)),
                };
                let mut shown = String::new();
                prog += "INPUT ";
                if let Some((p, question)) = &prompt {
                    if !p.is_empty() {
                        prog += &quote(p);
                    }
                    prog += if *question { "; " } else { ", " };
                    shown = p.clone() + if *question { "? " } else { "" };
                }
                prog += &format!("{}{}\n", name, ty);
                let mut answer = String::new();
                let mut tries = 0;
                loop {
                    if interactive {
                        // Erase what is there some times.
                        let prefill = answer.clone();
                        let start = format!("{}{}", shown, prefill);
                        if !start.is_empty() {
                            events.push(format!("prompt {}", start));
                        }
                        let n = if s.chance(1, 3) { s.idx(answer.chars().count() + 1) } else { answer.chars().count() };
                        for _ in 0..n {
                            keys.push(Key::Backspace);
                            answer.pop();
                        }
                    } else {
                        answer.clear();
                    }
                    let t = if tries >= 2 {
                        for _ in 0..answer.chars().count() {
                            keys.push(Key::Backspace);
                        }
                        answer.clear();
                        "1"
                    } else {
                        &typed(s, ty)
                    };
                    let t = if tries >= 2 && ty == '?' { "y" } else { t };
                    for c in t.chars() {
                        keys.push(Key::Char(c));
                        answer.push(c);
                    }
                    if !interactive && s.chance(1, 6) {
                        keys.push(Key::Char('q'));
                        keys.push(Key::Backspace);
                    }
                    keys.push(if s.chance(1, 2) { Key::NewLine } else { Key::CarriageReturn });
                    if interactive {
                        events.push("print ".to_owned());
                    }
                    match parse_typed(ty, &answer) {
                        Ok(v) => {
                            outs.push(show(&v));
                            break;
                        }
                        Err(e) => {
                            case.label("INPUT retries");
                            events.push(format!("print Retry input: {}", e));
                        }
                    }
                    tries += 1;
                }
                prog += &format!("OUT {}\n", name);
                line += 1;
            }
            _ => {
                prog += "OUT SCRCOLS; SCRROWS\n";
                outs.push(format!("{}% ; {}%", size.0, size.1));
            }
        }
        prog += "OUT ERRMSG\n";
        line += 1;
        outs.push(show(&V::T(last.clone())));
    }
    case.set_text(format!(
        "{}--- {}x{}{}; keys: {}",
        prog,
        size.0,
        size.1,
        if interactive { ", interactive" } else { "" },
        show_keys(&keys)
    ));
    case.nontrivial = kinds.count_ones() >= 2;
    if !last.is_empty() {
        case.label("with errors");
    }
    with_shared(|sut| {
        {
            let mut c = sut.con.borrow_mut();
            c.keys = keys.iter().cloned().collect();
            c.size = CharsXY::new(size.0, size.1);
            c.interactive = interactive;
        }
        let r = sut.run(&prog);
        let got = sut.take_out();
        let mut ev = sut.con.borrow_mut().take();
        let left = std::mem::take(&mut sut.con.borrow_mut().keys);
        if interactive {
            // How the line is edited is not of interest here, but what it starts with is.
            let mut filtered = vec![];
            let mut sync = false;
            for (i, e) in ev.iter().enumerate() {
                if e == "sync_now" {
                    // Comes after the prompt.
                    sync = true;
                    if let Some(p) = ev[..i].last().and_then(|p| p.strip_prefix("write ")) {
                        filtered.push(format!("prompt {}", p));
                    }
                    continue;
                }
                filtered.push(e.clone());
            }
            let _ = sync;
            let keep = |e: &String| {
                e.starts_with("print")
                    || e.starts_with("clear All")
                    || e.starts_with("color")
                    || e.starts_with("locate")
            };
            // Prompts may be truncated, so only compare those that fit.
            let _ = &keep;
            let wide = |e: &String| e.starts_with("prompt");
            ev = filtered.into_iter().filter(|e| keep(e) || (wide(e) && size.0 > 60)).collect();
            events.retain(|e| keep(e) || (wide(e) && size.0 > 60));
            for w in events.iter_mut().chain(ev.iter_mut()) {
                // The view is only a part of long lines.
                if wide(w) && w.chars().count() > 60 {
                    *w = "prompt ...".to_owned();
                }
            }
        }
        if r != Ok(None) {
            return Err(format!("program ended with {:?}", r));
        }
        if got != outs {
            return Err(format!("output was:\n{}\ninstead of:\n{}", got.join("\n"), outs.join("\n")));
        }
        if ev != events {
            return Err(format!("console got:\n{}\ninstead of:\n{}", ev.join("\n"), events.join("\n")));
        }
        if !left.is_empty() {
            return Err(format!("{} keys were not consumed", left.len()));
        }
        Ok(())
    })
}

// ---- S04: DATA

/// Marks the end of a chunk after which the machine is cleared.
const CLEAR: &str = "' (machine cleared)\n";

#[derive(Clone)]
enum Datum {
    Empty,
    Val(V),
}

fn data(s: &mut Src, case: &mut Case) -> CaseResult {
    let mut all: Vec<Datum> = vec![];
    let mut at = 0usize;
    let mut text = String::new();
    let mut vars: Vec<(&str, char, V)> = vec![
        ("vi", '%', V::I(0)),
        ("vd", '#', V::D(0.0)),
        ("vb", '?', V::B(false)),
        ("vt", '$', V::T(String::new())),
        ("wi", '%', V::I(7)),
    ];
    let nchunks = s.range(1, 3);
    let mut reads = 0;
    let mut errors = 0;
    let mut chunks: Vec<(String, Vec<String>)> = vec![];
    for chunk in 0..nchunks {
        let mut prog = String::new();
        let mut line = 0;
        let mut want: Vec<String> = vec![];
        // The whole data of the chunk is available from its beginning.
        let mut steps: Vec<(usize, Vec<Datum>)> = vec![];
        for _ in 0..s.range(2, 10) {
            let kind = s.weighted(&[7, 7, 1]);
            let mut d = vec![];
            if kind == 0 {
                for _ in 0..s.range(1, 4) {
                    d.push(match s.below(6) {
                        0 => Datum::Empty,
                        1 => Datum::Val(V::B(s.chance(1, 2))),
                        2 | 3 => Datum::Val(V::I(match s.below(4) {
                            0 => *s.pick(&[i32::MAX, -i32::MAX]),
                            _ => s.range(-9, 9) as i32,
                        })),
                        4 => Datum::Val(V::D(some_double(s))),
                        _ => Datum::Val(V::T(some_text(s, 10))),
                    });
                }
                all.extend(d.iter().cloned());
            }
            steps.push((kind, d));
        }
        prog += "ON ERROR RESUME NEXT\n";
        line += 1;
        if chunk == 0 {
            prog += "vi% = 0: vd# = 0: vb? = FALSE: vt$ = \"\": wi% = 7: e = \"\"\n";
            line += 1;
        }
        for (kind, d) in steps {
            match kind {
                0 => {
                    let mut t = String::from("DATA ");
                    for (i, d) in d.iter().enumerate() {
                        if i > 0 {
                            t += ", ";
                        }
                        if let Datum::Val(v) = d {
                            t += &lit(v);
                        }
                    }
                    match s.below(4) {
                        0 => {
                            prog += &format!("IF FALSE THEN\n{}\nEND IF\n", t);
                            line += 3;
                        }
                        1 => {
                            prog += &format!("vi% = vi%: {}\n", t);
                            line += 1;
                        }
                        _ => {
                            prog += &t;
                            prog += "\n";
                            line += 1;
                        }
                    }
                }
                1 => {
                    let mut t = String::from("READ ");
                    line += 1;
                    let mut err: Option<String> = None;
                    for i in 0..s.range(1, 4) {
                        if i > 0 {
                            t += ", ";
                        }
                        let n = s.idx(vars.len());
                        let col = t.len() + 1;
                        let (name, ty, v) = &mut vars[n];
                        t += &format!("{}{}", name, if s.chance(1, 2) { ty.to_string() } else { String::new() });
                        if err.is_some() {
                            continue;
                        }
                        reads += 1;
                        let Some(d) = all.get(at) else {
                            err = Some(format!("{}:{}: Out of data", line, col));
                            continue;
                        };
                        at += 1;
                        let d = match (d, &*v) {
                            (Datum::Val(d), _) => d.clone(),
                            (_, V::B(_)) => V::B(false),
                            (_, V::I(_)) => V::I(0),
                            (_, V::D(_)) => V::D(0.0),
                            (_, V::T(_)) => V::T(String::new()),
                        };
                        let tn = |v: &V| match v {
                            V::B(_) => "BOOLEAN",
                            V::I(_) => "INTEGER",
                            V::D(_) => "DOUBLE",
                            V::T(_) => "STRING",
                        };
                        let r: Result<V, String> = match (&*v, d) {
                            (V::I(_), V::D(d)) => crate::lang::double_to_int(d).map(V::I),
                            (V::D(_), V::I(i)) => Ok(V::D(f64::from(i))),
                            (a, b) if std::mem::discriminant(a) == std::mem::discriminant(&b) => Ok(b),
                            (a, b) => Err(format!(
                                "Cannot assign value of type {} to variable of type {}",
                                tn(&b),
                                tn(a)
                            )),
                        };
                        match r {
                            Ok(n) => *v = n,
                            Err(m) => err = Some(format!("{}:{}: {}", line, col, m)),
                        }
                    }
                    if err.is_some() {
                        errors += 1;
                    }
                    prog += &t;
                    prog += "\nOUT vi; vd; vb; vt; wi\n";
                    line += 1;
                    want.push(vars.iter().map(|(_, _, v)| show(v)).collect::<Vec<_>>().join(" ; "));
                    if let Some(e) = err {
                        prog += "OUT ERRMSG\n";
                        line += 1;
                        want.push(show(&V::T(e)));
                    }
                }
                _ => {
                    prog += "RESTORE\n";
                    line += 1;
                    at = 0;
                }
            }
        }
        if chunk + 1 < nchunks && s.chance(1, 6) {
            prog += CLEAR;
            all.clear();
            at = 0;
            vars = vec![
                ("vi", '%', V::I(0)),
                ("vd", '#', V::D(0.0)),
                ("vb", '?', V::B(false)),
                ("vt", '$', V::T(String::new())),
                ("wi", '%', V::I(7)),
            ];
            chunks.push((prog, want));
            chunks.push((
                "vi% = 0: vd# = 0: vb? = FALSE: vt$ = \"\": wi% = 7\n".to_owned(),
                vec![],
            ));
            continue;
        }
        chunks.push((prog, want));
    }
    for (p, _) in &chunks {
        text += p;
        text += "---\n";
    }
    case.set_text(text);
    case.nontrivial = reads >= 2 && !case.text.is_empty();
    if chunks.len() > 1 {
        case.label("several chunks");
    }
    if errors > 0 {
        case.label("with errors");
    }
    with_shared(|sut| {
        for (i, (p, want)) in chunks.iter().enumerate() {
            let (p, clear) = match p.strip_suffix(CLEAR) {
                Some(p) => (p, true),
                None => (p.as_str(), false),
            };
            let r = sut.run(p);
            let got = sut.take_out();
            if clear {
                sut.machine.clear();
            }
            if r != Ok(None) {
                return Err(format!("chunk {} ended with {:?}", i, r));
            }
            if got != *want {
                return Err(format!(
                    "chunk {} shows:\n{}\ninstead of:\n{}",
                    i,
                    got.join("\n"),
                    want.join("\n")
                ));
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S03",
            rule: "uses at least two different commands",
            quick: 600000,
            thorough: 20000000,
            run: console_cmds,
            assumptions: &["key presses while waiting for a line are limited to characters, backspace and enter"],
        },
        Prop {
            id: "S04",
            rule: "at least two variables are read",
            quick: 600000,
            thorough: 20000000,
            run: data,
            assumptions: &[],
        },
    ]
}
