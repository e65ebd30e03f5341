//! Properties of the full-screen editor.

use crate::engine::*;
use crate::term::*;
use crate::ui_props::show_keys;
use endbasic_repl::editor::Editor;
use endbasic_std::console::*;
use endbasic_std::program::Program;
use futures_lite::future::block_on;

const CHARS: &[char] = &['a', ' ', 'b', ' ', 'Z', '1', '"', 'é', '日', '😀', '\u{3000}'];

/// The program being edited and the state of the editor.
#[derive(Default, Clone)]
pub struct Model {
    pub name: Option<String>,
    pub lines: Vec<Vec<char>>,
    pub dirty: bool,
    line: usize,
    col: usize,
    insert_col: usize,
    top: usize,
    left: usize,
}

fn indent_len(l: &[char]) -> usize {
    l.iter().take_while(|c| **c == ' ').count()
}

impl Model {
    pub fn load(&mut self, name: Option<&str>, text: &str) {
        *self = Model {
            name: name.map(str::to_owned),
            lines: text.lines().map(|l| l.chars().collect()).collect(),
            ..Default::default()
        };
    }

    pub fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>() + "\n").collect()
    }

    fn go(&mut self, line: usize) {
        self.line = line.min(self.lines.len() - 1);
        self.col = self.insert_col.min(self.lines[self.line].len());
    }

    fn at(&mut self, col: usize) {
        self.col = col;
        self.insert_col = col;
    }

    /// Applies a key; false to stop.
    pub fn key(&mut self, k: &Key, page: usize) -> bool {
        let (l, c) = (self.line, self.col);
        let len = self.lines[l].len();
        match k {
            Key::Escape | Key::Interrupt => return false,
            Key::ArrowUp => self.go(l.saturating_sub(1)),
            Key::ArrowDown => self.go(l + 1),
            Key::PageUp => self.go(l.saturating_sub(page)),
            Key::PageDown => self.go(l + page),
            Key::ArrowLeft if c > 0 => self.at(c - 1),
            Key::ArrowRight if c < len => self.at(c + 1),
            Key::End => self.at(len),
            Key::Home => {
                let i = indent_len(&self.lines[l]);
                self.at(if c == i { 0 } else { i });
            }
            Key::Backspace if c > 0 => {
                // Within the indentation, goes back to the previous multiple of 4.
                let to = if indent_len(&self.lines[l]) >= c { (c - 1) / 4 * 4 } else { c - 1 };
                self.lines[l].drain(to..c);
                self.at(to);
                self.dirty = true;
            }
            Key::Backspace if l > 0 => {
                let rest = self.lines.remove(l);
                self.line -= 1;
                let to = self.lines[l - 1].len();
                self.at(to);
                self.lines[l - 1].extend(rest);
                self.dirty = true;
            }
            Key::Backspace => self.at(c),
            Key::Delete | Key::EofOrDelete => {
                if c < len {
                    self.lines[l].remove(c);
                    self.dirty = true;
                } else if l + 1 < self.lines.len() {
                    let rest = self.lines.remove(l + 1);
                    self.lines[l].extend(rest);
                    self.dirty = true;
                }
            }
            Key::Char(ch) => {
                self.lines[l].insert(c, *ch);
                self.at(c + 1);
                self.dirty = true;
            }
            Key::Tab => {
                let to = (c + 4) / 4 * 4;
                for i in c..to {
                    self.lines[l].insert(i, ' ');
                }
                self.at(to);
                self.dirty = true;
            }
            Key::NewLine | Key::CarriageReturn => {
                let mut new: Vec<char> =
                    self.lines[l].iter().cloned().take_while(|c| c.is_whitespace()).collect();
                let n = new.len();
                new.extend(self.lines[l].split_off(c));
                self.lines.insert(l + 1, new);
                self.line += 1;
                self.at(n);
                self.dirty = true;
            }
            _ => (),
        }
        true
    }

    /// Makes the cursor visible with the least possible scrolling.
    fn scroll(&mut self, w: usize, h: usize) {
        self.top = self.top.min(self.line).max((self.line + 1).saturating_sub(h - 1));
        self.left = self.left.min(self.col).max((self.col + 1).saturating_sub(w));
    }

    fn status(&self, w: usize) -> String {
        let long = format!(
            " | {}{} | Ln {}, Col {} ",
            self.name.as_deref().unwrap_or("<NO NAME>"),
            if self.dirty { "*" } else { "" },
            self.line + 1,
            self.col + 1
        );
        let n = long.chars().count();
        let keys = " ESC Exit ";
        let s = if keys.len() + n >= w {
            format!("{:>w$}", format!(" {}:{} ", self.line + 1, self.col + 1), w = w)
        } else {
            format!("{}{}{}", keys, " ".repeat(w - keys.len() - n), long)
        };
        s.chars().take(w).collect()
    }

    fn check(&self, sn: &Screen, w: usize, h: usize) -> CaseResult {
        let fail = |m: String| Err(format!("{}:\n{}", m, sn.text()));
        for y in 0..h - 1 {
            let want: String = match self.lines.get(self.top + y) {
                Some(l) => l.iter().skip(self.left).take(w).collect(),
                None => String::new(),
            };
            let want = want.clone() + &" ".repeat(w - want.chars().count());
            // All blanks look the same.
            let want = want.replace('\u{3000}', " ");
            if sn.row(y).replace('\u{3000}', " ") != want {
                return fail(format!("row {} should be |{}|", y, want));
            }
            for c in &sn.cells[y] {
                if c.bg.is_some() || (!c.ch.is_whitespace() && c.fg != Some(7)) {
                    return fail(format!("row {} has the wrong colors: {:?}", y, c));
                }
            }
        }
        let want = self.status(w);
        if sn.row(h - 1) != want {
            return fail(format!("status bar should be |{}|", want));
        }
        if sn.cells[h - 1].iter().any(|c| (c.fg, c.bg) != (Some(15), Some(4))) {
            return fail("status bar has the wrong colors".to_owned());
        }
        let (x, y) = (self.col - self.left, self.line - self.top);
        if (sn.x, sn.y) != (x, y) || !sn.cursor {
            return fail(format!("cursor should be shown at {},{}", x, y));
        }
        Ok(())
    }
}

fn some_line(s: &mut Src, max: i64) -> String {
    let indent = if s.chance(1, 3) { s.range(0, 9) } else { 0 };
    (0..indent).map(|_| ' ').chain((0..s.range(0, max)).map(|_| *s.pick(CHARS))).collect()
}

fn some_name(s: &mut Src) -> String {
    s.pick(&["X", "program.bas", "CLOUD:/a", "ñandú.bas", "日本.bas"]).to_string()
}

fn some_keys(s: &mut Src, w: usize) -> Vec<Key> {
    let mut keys = vec![];
    for _ in 0..s.range(1, 40) {
        let k = match s.weighted(&[10, 4, 4, 4, 4, 4, 3, 3, 3, 2, 1, 1]) {
            0 => Key::Char(*s.pick(CHARS)),
            1 => Key::Backspace,
            2 => *s.pick(&[Key::NewLine, Key::CarriageReturn]),
            3 => Key::ArrowLeft,
            4 => Key::ArrowUp,
            5 => Key::ArrowDown,
            6 => Key::ArrowRight,
            7 => *s.pick(&[Key::Home, Key::End]),
            8 => *s.pick(&[Key::Delete, Key::EofOrDelete]),
            9 => Key::Tab,
            10 => *s.pick(&[Key::PageUp, Key::PageDown]),
            _ => Key::Unknown,
        };
        for _ in 0..(if s.chance(1, 8) { s.range(1, w as i64 + 1) } else { 1 }) {
            keys.push(k);
        }
    }
    keys
}

enum Step {
    Load(Option<String>, String),
    SetName(String),
    Edit(usize, usize, Vec<Key>),
}

fn editor(s: &mut Src, case: &mut Case) -> CaseResult {
    let mut steps = vec![];
    let mut text = String::new();
    let mut used = 0;
    for i in 0..s.range(1, 4) {
        let kind = if i == 0 { s.weighted(&[3, 2]) } else { s.weighted(&[3, 1, 1]) };
        match kind {
            0 => {
                let w = if s.chance(1, 4) { s.range(30, 60) } else { s.range(1, 20) } as usize;
                let h = s.range(2, 8) as usize;
                let mut keys = some_keys(s, w);
                if !s.chance(1, 20) {
                    keys.push(*s.pick(&[Key::Escape, Key::Interrupt]));
                }
                text += &format!("edit on {}x{}: {}\n", w, h, show_keys(&keys));
                steps.push(Step::Edit(w, h, keys));
            }
            1 => {
                let name = if s.chance(1, 3) { None } else { Some(some_name(s)) };
                let nl = s.range(0, 12);
                let mut t: String = (0..nl).map(|_| some_line(s, 25) + "\n").collect();
                if s.chance(1, 4) {
                    t.pop();
                }
                text += &format!("load {:?} {:?}\n", name, t);
                steps.push(Step::Load(name, t));
                let w = if s.chance(1, 4) { s.range(30, 60) } else { s.range(1, 20) } as usize;
                let h = s.range(2, 8) as usize;
                let mut keys = some_keys(s, w);
                keys.push(Key::Escape);
                text += &format!("edit on {}x{}: {}\n", w, h, show_keys(&keys));
                steps.push(Step::Edit(w, h, keys));
            }
            _ => {
                let name = some_name(s);
                text += &format!("set_name {:?}\n", name);
                steps.push(Step::SetName(name));
            }
        }
    }
    case.set_text(text);

    let mut ed = Editor::default();
    let mut m = Model::default();
    for (n, step) in steps.iter().enumerate() {
        match step {
            Step::Load(name, t) => {
                ed.load(name.as_deref(), t);
                m.load(name.as_deref(), t);
            }
            Step::SetName(name) => {
                ed.set_name(name);
                m.name = Some(name.clone());
                m.dirty = false;
            }
            Step::Edit(w, h, keys) => {
                let (w, h) = (*w, *h);
                let mut term = Term::new(w, h);
                term.put("before");
                term.locate(CharsXY::new(0, 1)).unwrap();
                let before = term.s.clone();
                term.keys = keys.iter().cloned().collect();
                let r = block_on(ed.edit(&mut term));
                if let Some(b) = term.bad.first() {
                    return Err(format!("{} in step {}; screen:\n{}", b, n, term.s.text()));
                }
                if term.s != before {
                    return Err(format!("screen not restored in step {}:\n{}", n, term.s.text()));
                }
                if !term.sync() {
                    return Err(format!("console not synchronized after step {}", n));
                }
                if m.lines.is_empty() {
                    m.lines.push(vec![]);
                }
                let mut stopped = false;
                let mut consumed = 0;
                for (i, k) in keys.iter().enumerate() {
                    m.scroll(w, h);
                    let Some(sn) = term.snaps.get(i) else {
                        return Err(format!("step {}: stopped reading before key {}: {:?}", n, i, r));
                    };
                    m.check(sn, w, h).map_err(|e| format!("step {}, before key {}: {}", n, i, e))?;
                    consumed = i + 1;
                    used += 1;
                    if !m.key(k, h - 2) {
                        stopped = true;
                        break;
                    }
                }
                if !stopped {
                    m.scroll(w, h);
                    case.label("failed reads");
                    consumed += 1;
                }
                if term.snaps.len() != consumed {
                    return Err(format!("step {}: read {} keys instead of {}", n, term.snaps.len(), consumed));
                }
                if r.is_ok() != stopped {
                    return Err(format!("step {}: result is {:?}", n, r));
                }
                if m.left > 0 {
                    case.label("scrolled horizontally");
                }
                if m.top > 0 {
                    case.label("scrolled vertically");
                }
            }
        }
        if ed.text() != m.text() {
            return Err(format!("after step {}: text is {:?} instead of {:?}", n, ed.text(), m.text()));
        }
        if ed.is_dirty() != m.dirty || ed.name() != m.name.as_deref() {
            return Err(format!("after step {}: name {:?}, dirty {}", n, ed.name(), ed.is_dirty()));
        }
    }
    case.nontrivial = used >= 10;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U04",
        rule: "at least 10 keys are processed",
        quick: 300000,
        thorough: 10000000,
        run: editor,
        assumptions: &["all characters are one column wide", "consoles have at least 2 rows"],
    }]
}
