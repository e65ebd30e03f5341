//! Properties of the interactive parts: line editor, pager, full-screen editor.

use crate::engine::*;
use crate::term::*;
use endbasic_std::console::*;
use futures_lite::future::block_on;
use std::io;

const KEY_CHARS: &[char] = &['a', 'b', 'c', ' ', 'Z', '1', '"', 'é', '日', '😀', '-'];

pub fn show_key(k: &Key) -> String {
    match k {
        Key::Char(c) => format!("{:?}", c),
        k => format!("{:?}", k),
    }
}

pub fn show_keys(keys: &[Key]) -> String {
    keys.iter().map(show_key).collect::<Vec<_>>().join(" ")
}

fn words(s: &mut Src, max: i64) -> String {
    (0..s.range(0, max)).map(|_| *s.pick(KEY_CHARS)).collect()
}

// ---- U01: line editor

struct LineModel {
    line: Vec<char>,
    pos: usize,
    hist: Option<Vec<Vec<char>>>,
    at: usize,
    iw: usize,
}

enum Done {
    No,
    Submit,
    Fail(io::ErrorKind),
}

impl LineModel {
    fn key(&mut self, k: &Key) -> Done {
        match k {
            Key::ArrowLeft => self.pos = self.pos.saturating_sub(1),
            Key::ArrowRight => self.pos = (self.pos + 1).min(self.line.len()),
            Key::Home => self.pos = 0,
            Key::End => self.pos = self.line.len(),
            Key::Backspace if self.pos > 0 => {
                self.pos -= 1;
                self.line.remove(self.pos);
            }
            Key::Delete if self.pos < self.line.len() => {
                self.line.remove(self.pos);
            }
            Key::EofOrDelete => {
                if self.line.is_empty() {
                    return Done::Fail(io::ErrorKind::UnexpectedEof);
                }
                if self.pos < self.line.len() {
                    self.line.remove(self.pos);
                }
            }
            Key::Char(c) if self.iw > 0 => {
                self.line.insert(self.pos, *c);
                self.pos += 1;
            }
            Key::ArrowUp | Key::ArrowDown => {
                if let Some(h) = &mut self.hist {
                    let to = if matches!(k, Key::ArrowUp) {
                        self.at.checked_sub(1)
                    } else {
                        Some(self.at + 1).filter(|i| *i < h.len())
                    };
                    if let Some(to) = to {
                        h[self.at] = self.line.clone();
                        self.at = to;
                        self.line = h[to].clone();
                        self.pos = self.line.len();
                    }
                }
            }
            Key::Interrupt => return Done::Fail(io::ErrorKind::Interrupted),
            Key::NewLine | Key::CarriageReturn => return Done::Submit,
            _ => (),
        }
        Done::No
    }
}

/// Compares the row of the cursor to what it should show.
fn check_row(sn: &Screen, w: usize, prompt: &[char], m: &LineModel, secure: bool) -> CaseResult {
    let fail = |what: &str| {
        Err(format!(
            "{}: line {:?}, position {}, prompt {:?}; screen:\n{}",
            what,
            m.line.iter().collect::<String>(),
            m.pos,
            prompt.iter().collect::<String>(),
            sn.text()
        ))
    };
    if !sn.cursor {
        return fail("the cursor is hidden");
    }
    if sn.x < prompt.len() || sn.x >= w {
        return fail("the cursor is not on the line");
    }
    let off = sn.x - prompt.len();
    if off > m.pos {
        return fail("the cursor is too far");
    }
    let from = m.pos - off;
    let mut want: Vec<char> = prompt.to_vec();
    want.extend(m.line.iter().skip(from).take(m.iw).map(|c| if secure { '*' } else { *c }));
    want.resize(w, ' ');
    let got: Vec<char> = sn.cells[sn.y].iter().map(|c| c.ch).collect();
    if got != want {
        return fail(&format!("row shows {:?}", got.iter().collect::<String>()));
    }
    Ok(())
}

fn readline(s: &mut Src, case: &mut Case) -> CaseResult {
    let w = match s.below(4) {
        0 => s.range(3, 8),
        1 => s.range(20, 30),
        _ => s.range(6, 16),
    } as usize;
    let h = s.range(1, 4) as usize;
    let secure = s.chance(1, 6);
    let mut prompt: Vec<char> = words(s, w as i64 + 3).chars().collect();
    let full_prompt: String = prompt.iter().collect();
    if prompt.len() >= w {
        if w >= 5 {
            prompt.truncate(w - 5);
            prompt.extend("...".chars());
        } else {
            prompt.clear();
        }
    }
    let iw = w - prompt.len() - 1;
    let previous = if secure || iw == 0 { String::new() } else { words(s, 20) };
    let hist: Option<Vec<String>> = if !secure && iw > 0 && s.chance(1, 2) {
        Some((0..s.range(0, 3)).map(|_| words(s, 2 * w as i64)).filter(|l| !l.is_empty()).collect())
    } else {
        None
    };
    let mut keys: Vec<Key> = vec![];
    for _ in 0..s.range(1, 60) {
        let k = match s.weighted(&[10, 4, 3, 2, 2, 2, 2, 3, 2, 1, 1]) {
            0 => Key::Char(*s.pick(KEY_CHARS)),
            1 => Key::ArrowLeft,
            2 => Key::Backspace,
            3 => Key::ArrowRight,
            4 => Key::Home,
            5 => Key::End,
            6 => Key::Delete,
            7 => *s.pick(&[Key::ArrowUp, Key::ArrowUp, Key::ArrowDown]),
            8 => Key::EofOrDelete,
            9 => *s.pick(&[Key::Tab, Key::PageUp, Key::PageDown, Key::Unknown, Key::Escape]),
            _ if s.chance(1, 4) => Key::Interrupt,
            _ => Key::Char('x'),
        };
        for _ in 0..(if s.chance(1, 10) { s.range(1, 12) } else { 1 }) {
            keys.push(k);
        }
    }
    keys.push(if s.chance(1, 2) { Key::NewLine } else { Key::CarriageReturn });
    let row = s.range(0, h as i64 - 1) as u16;
    case.set_text(format!(
        "{}x{} console at row {}, prompt {:?}, previous {:?}, history {:?}{}, keys: {}",
        w,
        h,
        row,
        full_prompt,
        previous,
        hist,
        if secure { ", secure" } else { "" },
        show_keys(&keys)
    ));

    let mut m = LineModel {
        line: previous.chars().collect(),
        pos: previous.chars().count(),
        hist: hist.as_ref().map(|h| h.iter().map(|l| l.chars().collect()).collect()),
        at: 0,
        iw,
    };
    if let Some(h) = &mut m.hist {
        m.at = h.len();
        h.push(m.line.clone());
    }

    let mut term = Term::new(w, h);
    term.locate(CharsXY::new(0, row)).unwrap();
    term.keys = keys.iter().cloned().collect();
    let mut real_hist = hist.clone();
    let r = if secure {
        block_on(read_line_secure(&mut term, &full_prompt))
    } else {
        block_on(read_line(&mut term, &full_prompt, &previous, real_hist.as_mut()))
    };
    if let Some(b) = term.bad.first() {
        return Err(format!("{}; screen:\n{}", b, term.s.text()));
    }

    let mut scrolled = false;
    let mut result = Done::No;
    let mut used = 0;
    for (i, k) in keys.iter().enumerate() {
        match term.snaps.get(i) {
            Some(sn) => {
                check_row(sn, w, &prompt, &m, secure).map_err(|e| format!("before key {}: {}", i, e))?;
                if sn.y != usize::from(row) {
                    return Err(format!("moved to another row before key {}:\n{}", i, sn.text()));
                }
            }
            None => return Err(format!("stopped reading before key {}: {:?}", i, r)),
        }
        used = i + 1;
        if m.line.len() > iw {
            scrolled = true;
        }
        result = m.key(k);
        if !matches!(result, Done::No) {
            break;
        }
    }
    if term.snaps.len() != used {
        return Err(format!("read {} keys instead of {}", term.snaps.len(), used));
    }
    case.nontrivial = used >= 4;
    if scrolled {
        case.label("line wider than the view");
    }
    if secure {
        case.label("secure");
    }
    let line: String = m.line.iter().collect();
    let mut want_hist: Option<Vec<String>> =
        m.hist.as_ref().map(|h| h.iter().map(|l| l.iter().collect()).collect());
    match (&result, &r) {
        (Done::Submit, Ok(l)) => {
            if *l != line {
                return Err(format!("returned {:?} instead of {:?}", l, line));
            }
            if term.s.x != 0 {
                return Err("cursor not at the start of a line".to_owned());
            }
            if let Some(h) = &mut want_hist {
                if line.is_empty() {
                    h.pop();
                } else {
                    *h.last_mut().unwrap() = line.clone();
                }
            }
        }
        (Done::Fail(k), Err(e)) if e.kind() == *k => {
            case.label("abandoned");
            if let Some(h) = &mut want_hist {
                h.pop();
            }
        }
        (_, r) => return Err(format!("result {:?} for line {:?}", r, line)),
    }
    if real_hist != want_hist {
        return Err(format!("history is {:?} instead of {:?}", real_hist, want_hist));
    }
    if want_hist.is_some() {
        case.label("history");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U01",
        rule: "at least 4 keys are processed",
        quick: 2000000,
        thorough: 60000000,
        run: readline,
        assumptions: &[
            "the prompt is written at column 0, as documented in the code",
            "consoles are at least 3 columns wide",
        ],
    }]
}
