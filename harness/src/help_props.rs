//! Properties of the online help and of long listings.

use crate::engine::*;
use crate::std_sut::*;
use crate::ui_props::show_keys;
use async_trait::async_trait;
use endbasic_core::{
    ArgSep, ArgSepSyntax, CallResult, Callable, CallableMetadata, CallableMetadataBuilder, ExprType,
    RequiredValueSyntax, Scope, SingularArgSyntax,
};
use endbasic_repl::editor::Editor;
use endbasic_std::console::{AnsiColor, CharsXY, Key};
use endbasic_std::program::Program;
use futures_lite::future::block_on;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Mutex;

const LANG_MD: &str = include_str!("/repo/std/src/lang.md");

const TITLE: u8 = AnsiColor::BrightYellow as u8;
const LINK: u8 = AnsiColor::BrightCyan as u8;

/// A line of colored segments; adjacent segments have different colors.
type Line = Vec<(Option<u8>, String)>;

fn push(line: &mut Line, color: Option<u8>, text: &str) {
    if text.is_empty() {
        return;
    }
    match line.last_mut() {
        Some((c, t)) if *c == color => t.push_str(text),
        _ => line.push((color, text.to_owned())),
    }
}

fn len(line: &Line) -> usize {
    line.iter().map(|(_, t)| t.chars().count()).sum()
}

/// Fills paragraphs greedily.
fn fill(paragraphs: &[&str], indent: &str, columns: usize) -> Vec<String> {
    let mut out = vec![];
    for (i, p) in paragraphs.iter().enumerate() {
        if i > 0 {
            out.push(String::new());
        }
        let extra = p.chars().take_while(|c| c.is_whitespace()).count();
        let prefix = format!("{}{}", indent, " ".repeat(extra));
        let width = columns.saturating_sub(4 + prefix.len());
        let words: Vec<&str> = p.split_whitespace().collect();
        if words.is_empty() {
            if p.is_empty() {
                out.push(String::new());
            }
            continue;
        }
        let mut i = 0;
        while i < words.len() {
            let mut line = words[i].to_owned();
            i += 1;
            while i < words.len() {
                let first = words[i].chars().next().unwrap();
                let gap = if line.ends_with('.') && !first.is_ascii_lowercase() { 2 } else { 1 };
                if line.chars().count() + gap + words[i].chars().count() >= width {
                    break;
                }
                line += &" ".repeat(gap);
                line += words[i];
                i += 1;
            }
            out.push(format!("{}{}", prefix, line));
        }
    }
    out
}

/// Sections of the language reference: title and lines.
fn lang_topics() -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut blank = false;
    for l in LANG_MD.lines() {
        match l.strip_prefix("# ") {
            Some(t) if blank => v.push((t.to_owned(), vec![])),
            _ => {
                if let Some((_, lines)) = v.last_mut() {
                    if !lines.is_empty() || !l.is_empty() {
                        lines.push(l.to_owned());
                    }
                }
            }
        }
        blank = l.is_empty();
    }
    for (_, lines) in v.iter_mut() {
        while lines.last().is_some_and(|l| l.is_empty()) {
            lines.pop();
        }
    }
    v
}

enum Topic {
    Callable(Rc<CallableMetadata>),
    Category(Vec<String>, BTreeMap<String, String>),
    Lang(Vec<String>),
}

fn display_name(m: &CallableMetadata) -> String {
    match m.return_type() {
        None => m.name().to_owned(),
        Some(t) => format!("{}{}", m.name(), t.annotation()),
    }
}

/// All topics by upper case name, with their names.
fn topics(callables: &[Rc<CallableMetadata>]) -> BTreeMap<String, (String, Topic)> {
    let mut v = BTreeMap::new();
    let mut add = |name: &str, t: Topic| {
        v.insert(name.to_ascii_uppercase(), (name.to_owned(), t));
    };
    let mut index = BTreeMap::new();
    for (name, lines) in lang_topics() {
        index.insert(name.clone(), lines[0].clone());
        add(&name, Topic::Lang(lines));
    }
    add("Language reference", Topic::Category(vec!["General language topics".to_owned()], index));
    let mut cats: BTreeMap<&'static str, BTreeMap<String, String>> = BTreeMap::new();
    for m in callables {
        add(&display_name(m), Topic::Callable(m.clone()));
        cats.entry(m.category())
            .or_default()
            .insert(display_name(m), m.description().next().unwrap().to_owned());
    }
    for (cat, index) in cats {
        let lines: Vec<String> = cat.lines().map(|l| l.to_owned()).collect();
        add(&lines[0].clone(), Topic::Category(lines, index));
    }
    v
}

fn plain(out: &mut Vec<Line>, fg: Option<u8>, lines: Vec<String>) {
    for l in lines {
        let mut line = vec![];
        push(&mut line, fg, &l);
        out.push(line);
    }
}

/// Everything that is printed about a topic.
fn describe(t: &Topic, fg: Option<u8>, w: usize) -> Vec<Line> {
    let mut out: Vec<Line> = vec![vec![]];
    match t {
        Topic::Callable(m) => {
            let name = display_name(m);
            let title = match (m.is_argless(), m.return_type()) {
                (true, _) => name,
                (false, None) => format!("{} {}", name, m.syntax()),
                (false, Some(_)) => format!("{}({})", name, m.syntax()),
            };
            plain(&mut out, Some(TITLE), fill(&[&title], "    ", w));
            out.push(vec![]);
            plain(&mut out, fg, fill(&m.description().collect::<Vec<_>>(), "    ", w));
        }
        Topic::Category(lines, index) => {
            plain(&mut out, Some(TITLE), fill(&[&lines[0]], "    ", w));
            if lines.len() > 1 {
                out.push(vec![]);
                let rest: Vec<&str> = lines[1..].iter().map(|l| l.as_str()).collect();
                plain(&mut out, fg, fill(&rest, "    ", w));
            }
            out.push(vec![]);
            let max = index.keys().map(|k| k.len()).max().unwrap();
            for (name, blurb) in index {
                let mut line = vec![];
                push(&mut line, fg, "    >> ");
                push(&mut line, Some(LINK), &format!("{:max$}", name));
                push(&mut line, fg, &format!("    {}", blurb));
                out.push(line);
            }
            out.push(vec![]);
            plain(&mut out, fg, fill(&["Type HELP followed by the name of a topic for details."], "    ", w));
        }
        Topic::Lang(lines) => {
            plain(&mut out, Some(TITLE), fill(&[&lines[0]], "    ", w));
            for l in &lines[1..] {
                plain(&mut out, fg, fill(&[l], "    ", w));
            }
        }
    }
    out.push(vec![]);
    out
}

/// The summary, from the line after its header.
fn summary(topics: &BTreeMap<String, (String, Topic)>, fg: Option<u8>, w: usize) -> Vec<Line> {
    let mut out: Vec<Line> = vec![];
    out.push(vec![]);
    plain(&mut out, Some(TITLE), fill(&["Top-level help topics"], "    ", w));
    out.push(vec![]);
    for (name, t) in topics.values() {
        if matches!(t, Topic::Category(..)) {
            let mut line = vec![];
            push(&mut line, fg, "    >> ");
            push(&mut line, Some(LINK), name);
            out.push(line);
        }
    }
    out.push(vec![]);
    for l in [
        "Type HELP followed by the name of a topic for details.",
        "Type HELP \"HELP\" for details on how to specify topic names.",
        "Type LOAD \"DEMOS:/TOUR.BAS\": RUN for a guided tour.",
        "Type END or press CTRL+D to exit.",
    ] {
        plain(&mut out, fg, fill(&[l], "    ", w));
    }
    out.push(vec![]);
    out
}

// ---- Callables provided by the host.

struct Nop(Rc<CallableMetadata>);

#[async_trait(?Send)]
impl Callable for Nop {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.0.clone()
    }
    fn exec(&self, _scope: Scope<'_>) -> CallResult<()> {
        Ok(())
    }
}

const NAMES: &[&str] = &[
    "FOO", "FOOBAR", "FOOB", "F", "CONS", "LAN", "TYPESET", "ZED", "ZEDS", "STRI", "WHIL", "O", "ONE_TWO",
    "QUITE_A_LONG_NAME_FOR_A_COMMAND",
];

const CATEGORIES: &[&str] = &[
    "Testing\nThis is a category for testing.",
    "Zapping",
    "Foobar things\nA longer description, with more than one sentence.  It has\n    indented text.",
    "Ñandú category\nLleva texto con acentos: á é í ó ú, más ñ y ü, y también «comillas» — que ocupan más bytes que columnas.",
    "console wizardry",
];

const WORDS: &[&str] = &[
    "a", "the", "word", "sentence.", "New", "another", "longer-word-with-dashes", "café", "naïve", "日本語", "x.",
    "Y", "3", "(see", "below)", "\"quoted\"", "ﬁn.", "Ünder", "supercalifragilisticexpialidocious",
];

/// A text by number.  There are a limited number of texts as these have to live forever.
fn text(n: u64) -> &'static str {
    static TEXTS: Mutex<Option<HashMap<u64, &'static str>>> = Mutex::new(None);
    let mut texts = TEXTS.lock().unwrap();
    texts.get_or_insert_with(HashMap::new).entry(n).or_insert_with(|| {
        let mut s = Src::random(n ^ 0x5eed);
        let mut t = String::from(*s.pick(WORDS));
        for _ in 0..s.range(0, 12) {
            t += " ";
            t += s.pick(WORDS);
        }
        for _ in 0..s.range(0, 3) {
            t += "\n";
            if s.chance(1, 4) {
                t += &" ".repeat(s.range(1, 6) as usize);
            }
            t += s.pick(WORDS);
            for _ in 0..s.range(0, 40) {
                t += " ";
                t += s.pick(WORDS);
            }
        }
        Box::leak(t.into_boxed_str())
    })
}

const SAMPLE: SingularArgSyntax = SingularArgSyntax::RequiredValue(
    RequiredValueSyntax { name: Cow::Borrowed("sample"), vtype: ExprType::Text },
    ArgSepSyntax::End,
);

const OTHER: SingularArgSyntax = SingularArgSyntax::RequiredValue(
    RequiredValueSyntax { name: Cow::Borrowed("other"), vtype: ExprType::Integer },
    ArgSepSyntax::Exactly(ArgSep::Long),
);

fn some_callable(s: &mut Src, name: &'static str) -> Rc<CallableMetadata> {
    let b = CallableMetadataBuilder::new(name);
    let b = match s.below(4) {
        0 => b.with_return_type(*s.pick(&[ExprType::Text, ExprType::Integer, ExprType::Boolean, ExprType::Double])),
        _ => b,
    };
    let b = match s.below(4) {
        0 => b.with_syntax(&[(&[], None)]),
        1 => b.with_syntax(&[(&[SAMPLE], None)]),
        2 => b.with_syntax(&[(&[OTHER, SAMPLE], None)]),
        _ => b.with_syntax(&[(&[], None), (&[OTHER, SAMPLE], None)]),
    };
    b.with_category(s.pick(CATEGORIES)).with_description(text(s.below(400))).build()
}

thread_local! {
    /// Callables are immutable and what they hold lives forever, so reuse them.
    static POOL: Vec<Rc<CallableMetadata>> = {
        let mut v = vec![];
        for i in 0..600u64 {
            let mut s = Src::random(i);
            v.push(some_callable(&mut s, NAMES[i as usize % NAMES.len()]));
        }
        v
    };
}

/// Rows that a line takes: at least and at most, as full rows may or may not wrap.
fn rows(line: &Line, w: usize) -> (usize, usize) {
    let n = len(line);
    (n.div_ceil(w).max(1), n / w + 1)
}

fn is_more(t: &str) -> bool {
    t == " << More >> " || t == " << Press any key for more; ESC or Ctrl+C to stop >> "
}

const BUILTIN_QUERIES: &[&str] = &[
    "CON", "console", "Console manipulation", "LEFT", "left$", "mid", "CO", "", "l", "LANG", "on", "On Error", "for",
    "DATA", "gfx_", "GFX_LINE", "st", "Stor", "DE", "deg", "X", "nope", "help", "HELP!", "DO", "dir", "print ", "if",
    "ó", "SELECT", "select case", "n", "gpio", "ra", "rnd", "Num", "String", "é", "language", "LANGUAGE REFERENCEZ",
];

fn help(s: &mut Src, case: &mut Case) -> CaseResult {
    let w = s.range(8, 100) as usize;
    let h = s.range(3, 30) as usize;
    let interactive = !s.chance(1, 5);
    let fg = *s.pick(&[None, None, Some(3), Some(11), Some(200)]);
    let bg = *s.pick(&[None, Some(4)]);

    let (mut b, con, _clock, _log, signals) = builder();
    let mut extra = vec![];
    if s.chance(1, 2) {
        for _ in 0..s.range(1, 6) {
            let m = POOL.with(|p| s.pick(p).clone());
            if extra.iter().all(|e: &Rc<CallableMetadata>| e.name() != m.name()) {
                extra.push(m);
            }
        }
    }
    for m in &extra {
        b.add_callable(Rc::new(Nop(m.clone())));
    }
    let program: Rc<RefCell<dyn Program>> = Rc::new(RefCell::new(Editor::default()));
    let metas = b.callables_metadata();
    let mut machine = b.make_interactive().with_program(program.clone()).build();
    let callables: Vec<_> = metas.borrow().values().cloned().collect();
    let topics = topics(&callables);

    // What to do and what it should show.
    let mut skip_header = false;
    let mut prog = String::new();
    let (cmd, want): (String, Result<Vec<Line>, String>) = match s.weighted(&[1, 8, 3]) {
        0 => {
            skip_header = true;
            ("HELP".to_owned(), Ok(summary(&topics, fg, w)))
        }
        1 => {
            let all: Vec<&String> = topics.keys().collect();
            let mut q = match s.below(4) {
                0 => (*s.pick(BUILTIN_QUERIES)).to_owned(),
                1 if !extra.is_empty() => display_name(&extra[s.idx(extra.len())]),
                _ => {
                    let t = s.pick(&all).to_string();
                    let n = t.chars().count();
                    let k = if s.chance(1, 2) { n } else { s.range(1, n as i64) as usize };
                    t.chars().take(k).collect()
                }
            };
            match s.below(4) {
                0 => q = q.to_ascii_lowercase(),
                1 => {
                    let mut up = false;
                    q = q
                        .chars()
                        .map(|c| {
                            up = !up;
                            if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
                        })
                        .collect();
                }
                2 if s.chance(1, 8) => q.push('z'),
                _ => (),
            }
            let key = q.to_ascii_uppercase();
            let found: Vec<&String> = topics.keys().filter(|k| k.starts_with(&key)).collect();
            let want = if let Some((_, t)) = topics.get(&key) {
                Ok(describe(t, fg, w))
            } else {
                match found.as_slice() {
                    [] => Err(format!("1:6: Unknown help topic {}", q)),
                    [one] => {
                        case.label("by prefix");
                        Ok(describe(&topics[*one].1, fg, w))
                    }
                    many => {
                        case.label("ambiguous");
                        let names: Vec<&str> = many.iter().map(|n| n.as_str()).collect();
                        Err(format!("1:6: Ambiguous help topic {}; candidates are: {}", q, names.join(", ")))
                    }
                }
            };
            (format!("HELP \"{}\"", q.replace('"', "\\\"")), want)
        }
        _ => {
            case.label("LIST");
            for _ in 0..s.range(0, 40) {
                let mut l = " ".repeat(s.range(0, 8) as usize);
                for _ in 0..s.range(0, 20) {
                    l += s.pick(WORDS);
                    l += " ";
                }
                let n = s.range(0, 4 * w as i64) as usize;
                prog += &l.chars().take(n).collect::<String>();
                prog += "\n";
            }
            block_on(async { program.borrow_mut().load(Some("x"), &prog) });
            let mut out = vec![];
            plain(&mut out, fg, prog.lines().map(|l| l.to_owned()).collect());
            ("LIST".to_owned(), Ok(out))
        }
    };

    let mut keys = vec![];
    for _ in 0..s.range(0, 40) {
        keys.push(match s.below(12) {
            0 => Key::Escape,
            1 => Key::Interrupt,
            _ => *s.pick(&[Key::NewLine, Key::Char('q'), Key::ArrowDown, Key::PageDown, Key::Char(' '), Key::EofOrDelete]),
        });
    }
    {
        let mut c = con.borrow_mut();
        c.size = CharsXY::new(w as u16, h as u16);
        c.interactive = interactive;
        c.fg = fg;
        c.bg = bg;
        c.keys = keys.iter().cloned().collect();
        c.trace_reads = true;
        let _ = signals;
    }
    case.set_text(format!(
        "{}\n--- {}x{}{}, colors {:?} {:?}; keys: {}\n--- host callables: {}\n--- program:\n{}",
        cmd,
        w,
        h,
        if interactive { ", interactive" } else { "" },
        fg,
        bg,
        show_keys(&keys),
        extra
            .iter()
            .map(|m| format!("{} {:?} {:?} {:?}", display_name(m), m.syntax(), m.category(), m.description().collect::<Vec<_>>()))
            .collect::<Vec<_>>()
            .join("; "),
        prog
    ));

    machine.compile(&mut cmd.as_bytes()).map_err(|e| format!("compile: {}", e))?;
    let r = block_on(machine.exec()).map_err(|e| e.to_string());

    // Group what was printed in lines, and check the pauses.
    let mut lines: Vec<Line> = vec![];
    let mut cur: Line = vec![];
    let mut color = fg;
    let mut since = (0usize, 0usize);
    let mut pauses = 0;
    let mut stopped = false;
    let mut must_pause = false;
    let mut used = 0;
    let ev = con.borrow_mut().take();
    let mut i = 0;
    while i < ev.len() {
        let e = &ev[i];
        i += 1;
        if stopped && !e.starts_with("color") {
            return Err(format!("{:?} happened after stopping at a pause", e));
        }
        if let Some(t) = e.strip_prefix("print ") {
            if is_more(t) && ev.get(i).map(|e| e.as_str()) == Some("read") {
                i += 1;
                if !interactive {
                    return Err("paused but nobody is watching".to_owned());
                }
                if (t == " << More >> ") != (w < 50) {
                    return Err(format!("asks {:?}", t));
                }
                if since.1 < h - 1 {
                    return Err(format!("paused after {} rows only, at line {}", since.1, lines.len()));
                }
                if !cur.is_empty() {
                    return Err("paused in the middle of a line".to_owned());
                }
                since = (0, 0);
                must_pause = false;
                pauses += 1;
                let k = keys.get(used).copied();
                used += 1;
                stopped = matches!(k, Some(Key::Escape) | Some(Key::Interrupt));
                continue;
            }
            if must_pause {
                return Err(format!("did not pause after {} rows, at line {}", since.0, lines.len()));
            }
            push(&mut cur, color, t);
            let (lo, hi) = rows(&cur, w);
            since = (since.0 + lo, since.1 + hi);
            lines.push(std::mem::take(&mut cur));
            must_pause = interactive && since.0 >= h - 1;
        } else if let Some(t) = e.strip_prefix("write ") {
            if must_pause {
                return Err(format!("did not pause after {} rows, at line {}", since.0, lines.len()));
            }
            push(&mut cur, color, t);
        } else if e.starts_with("color ") {
            color = con_color(e);
        } else {
            return Err(format!("unexpected operation {:?}", e));
        }
    }
    if must_pause {
        return Err("did not pause at the end".to_owned());
    }
    let end = (con.borrow().fg, con.borrow().bg);
    if end != (fg, bg) {
        return Err(format!("colors were left as {:?}", end));
    }
    if pauses > 0 {
        case.label("paused");
    }
    if stopped {
        case.label("stopped");
    }
    case.nontrivial = want.as_ref().is_ok_and(|w| !w.is_empty());

    match want {
        Err(e) => {
            if r != Err(e.clone()) {
                return Err(format!("ended with {:?} instead of error {:?}", r, e));
            }
            if !lines.is_empty() {
                return Err("printed something anyway".to_owned());
            }
            case.label("error");
        }
        Ok(mut want) => {
            if skip_header {
                // Versions and links change.
                let at = lines.iter().position(|l| l.iter().any(|(c, _)| *c == Some(TITLE) && fg != Some(TITLE)));
                let at = match at {
                    Some(at) => at,
                    None => lines
                        .iter()
                        .position(|l| l.iter().any(|(_, t)| t.trim_start().starts_with("Top")))
                        .unwrap_or(lines.len()),
                };
                if at == lines.len() && stopped {
                    // Stopped within the header.
                    return Ok(());
                }
                let header: String = lines[..at].iter().flatten().map(|(_, t)| format!("{} ", t)).collect();
                let words: Vec<&str> = header.split_whitespace().collect();
                for needed in ["EndBASIC", "Project", "License", "AGPLv3+"] {
                    if !words.contains(&needed) {
                        return Err(format!("the header is {:?}", header));
                    }
                }
                lines.drain(..at - 1);
            }
            if stopped {
                if r != Err("1:1: Interrupted".to_owned()) {
                    return Err(format!("ended with {:?} after stopping at a pause", r));
                }
                want.truncate(lines.len());
            } else if r != Ok(None) {
                return Err(format!("ended with {:?}", r));
            }
            if lines != want {
                let at = lines.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "line {} is {:?} instead of {:?} ({} lines instead of {})",
                    at,
                    lines.get(at),
                    want.get(at),
                    lines.len(),
                    want.len()
                ));
            }
        }
    }
    Ok(())
}

/// The foreground color that an event sets.
fn con_color(e: &str) -> Option<u8> {
    let t = e.strip_prefix("color ")?;
    let t = t.split(' ').next()?;
    t.strip_prefix("Some(")?.strip_suffix(')')?.parse().ok()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U06",
        rule: "the command shows something",
        quick: 60_000,
        thorough: 3_000_000,
        run: help,
        assumptions: &["consoles have at least 8 columns and 3 rows", "names of topics do not collide"],
    }]
}
