//! Properties of interactive sessions: the REPL, the stored program and the state of the machine.

use crate::engine::*;
use crate::std_sut::*;
use crate::store_props::*;
use crate::ui_props2::Model;
use endbasic_repl::editor::Editor;
use endbasic_repl::{run_repl_loop, try_load_autoexec};
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Set(char, i32),
    Inc(char),
    Print(char),
    Text,
    ErrMsg,
    End(i32),
    Color(i32),
    Deg,
    Rad,
    Sin,
    Resume,
    NoResume,
    Sleep(u64),
    Clear,
    New,
    Run,
    List,
    Edit,
    Save(Option<&'static str>),
    Load(&'static str),
    Kill(&'static str),
    Sync,
    Data(i32),
    Read(char),
    Restore,
}

/// All statements, each with a weight for immediate use and another for programs.
const STMTS: &[(&str, St, u32, u32)] = &[
    ("PRINT \"hi\"", St::Text, 2, 3),
    ("a = 1", St::Set('a', 1), 3, 4),
    ("a = 2", St::Set('a', 2), 2, 2),
    ("b = 7", St::Set('b', 7), 2, 3),
    ("a = a + 1", St::Inc('a'), 3, 3),
    ("PRINT a", St::Print('a'), 5, 4),
    ("PRINT b", St::Print('b'), 3, 3),
    ("PRINT c", St::Print('c'), 2, 2),
    ("PRINT ERRMSG", St::ErrMsg, 2, 2),
    ("END", St::End(0), 1, 1),
    ("END 3", St::End(3), 1, 2),
    ("COLOR 5", St::Color(5), 1, 1),
    ("COLOR 300", St::Color(300), 2, 2),
    ("DEG", St::Deg, 1, 1),
    ("RAD", St::Rad, 1, 1),
    ("PRINT SIN(90)", St::Sin, 2, 1),
    ("ON ERROR RESUME NEXT", St::Resume, 1, 2),
    ("ON ERROR GOTO 0", St::NoResume, 1, 1),
    ("SLEEP 1", St::Sleep(1), 1, 1),
    ("SLEEP 7", St::Sleep(7), 1, 1),
    ("CLEAR", St::Clear, 2, 1),
    ("NEW", St::New, 3, 1),
    ("RUN", St::Run, 8, 0),
    ("LIST", St::List, 1, 1),
    ("EDIT", St::Edit, 8, 1),
    ("SAVE", St::Save(None), 3, 1),
    ("SAVE \"p\"", St::Save(Some("p")), 3, 1),
    ("SAVE \"Memory:/q\"", St::Save(Some("Memory:/q")), 1, 0),
    ("SAVE \"ro:/b\"", St::Save(Some("ro:/b")), 1, 1),
    ("LOAD \"p\"", St::Load("p"), 4, 1),
    ("LOAD \"q.bas\"", St::Load("q.bas"), 2, 1),
    ("LOAD \"bad\"", St::Load("bad"), 1, 0),
    ("LOAD \"nope\"", St::Load("nope"), 1, 1),
    ("LOAD \"ro:b\"", St::Load("ro:b"), 1, 0),
    ("KILL \"p.bas\"", St::Kill("p.bas"), 1, 1),
    ("GFX_SYNC FALSE", St::Sync, 1, 1),
    ("DATA 4", St::Data(4), 1, 2),
    ("DATA 9", St::Data(9), 1, 1),
    ("READ c", St::Read('c'), 2, 3),
    ("RESTORE", St::Restore, 1, 1),
];

type Stmt = (usize, usize, St);

/// Parses a program made of known statements only.
fn parse(text: &str) -> Option<Vec<Stmt>> {
    let mut v = vec![];
    for (i, l) in text.lines().enumerate() {
        if l.is_empty() {
            continue;
        }
        let (_, st, _, _) = STMTS.iter().find(|(t, _, _, _)| *t == l)?;
        if *st == St::Run {
            return None;
        }
        v.push((i + 1, 1, *st));
    }
    Some(v)
}

/// The behavior of the session is not known.
struct Unknown;

enum Outcome {
    Done,
    Exit(i32),
    Error(String),
    Break,
}

#[derive(Clone)]
struct Sess {
    vars: BTreeMap<char, Option<i32>>,
    resume: bool,
    last_err: Option<String>,
    deg: bool,
    data: Vec<i32>,
    index: usize,
    fg: Option<u8>,
    sync: bool,
    prog: Model,
    files: BTreeMap<String, Vec<u8>>,
    out: Vec<String>,
    keys: Vec<Key>,
    slept: Vec<u64>,
    labels: Vec<&'static str>,
}

fn typed(s: &str, keys: &mut Vec<Key>) {
    keys.extend(s.chars().map(Key::Char));
}

impl Sess {
    fn clear(&mut self) {
        self.vars.clear();
        self.resume = false;
        self.last_err = None;
        self.deg = false;
        self.data.clear();
        self.index = 0;
        self.fg = None;
        self.sync = true;
    }

    fn say(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !s.is_empty() {
            self.out.push(s);
        }
    }

    /// Declares the variables used by `stmts`, or fails without any effects.
    fn compile(&mut self, stmts: &[Stmt]) -> Result<(), String> {
        let mut vars = self.vars.clone();
        for (l, c, st) in stmts {
            match st {
                St::Set(v, _) | St::Read(v) | St::Inc(v) => {
                    vars.entry(*v).or_default();
                }
                St::Print(v) if !vars.contains_key(v) => {
                    return Err(format!("{}:{}: Undefined symbol {}", l, c + 6, v));
                }
                _ => (),
            }
        }
        self.vars = vars;
        for (_, _, st) in stmts {
            if let St::Data(n) = st {
                self.data.push(*n);
            }
        }
        Ok(())
    }

    fn unsaved(&mut self) {
        match self.prog.name.clone() {
            Some(n) => self.say(format!("Current program {} has unsaved changes!", n)),
            None => self.say("Current program has unsaved changes and has never been saved!"),
        }
    }

    /// Asks whether to discard the program, if needed.  Errors with the break flag and a message.
    fn ask(&mut self, s: &mut Src) -> Result<bool, (bool, &'static str)> {
        if !self.prog.dirty {
            return Ok(true);
        }
        self.labels.push("asked to discard changes");
        self.unsaved();
        match s.weighted(&[5, 5, 1, 1]) {
            0 => {
                let a = *s.pick(&["y", "Y", "yes", "YES", "true", "yEs"]);
                typed(a, &mut self.keys);
                self.keys.push(Key::NewLine);
                Ok(true)
            }
            1 => {
                let a = *s.pick(&["n", "N", "no", "", "false", "maybe", " y", "1", "yy", "ok", "ye"]);
                typed(a, &mut self.keys);
                self.keys.push(Key::NewLine);
                Ok(false)
            }
            2 => {
                self.keys.push(Key::Interrupt);
                Err((true, "Ctrl+C"))
            }
            _ => {
                self.keys.push(Key::EofOrDelete);
                Err((false, "EOF"))
            }
        }
    }

    /// Types an edition session.  Returns whether it was interrupted.
    fn edit(&mut self, s: &mut Src) -> bool {
        if self.prog.lines.is_empty() {
            self.prog.lines.push(vec![]);
        }
        let mut keys = vec![];
        for _ in 0..s.range(0, 4) {
            match s.weighted(&[8, 2, 1, 1]) {
                0 => {
                    // Adds a line somewhere.
                    let up = s.range(0, 20);
                    keys.extend([Key::PageDown, Key::PageDown, Key::End]);
                    (0..up).for_each(|_| keys.push(Key::ArrowUp));
                    keys.push(Key::Home);
                    let w: Vec<u32> = STMTS.iter().map(|t| t.3).collect();
                    typed(STMTS[s.weighted(&w)].0, &mut keys);
                    keys.push(Key::NewLine);
                }
                1 => {
                    // Removes a line.
                    keys.extend([Key::PageUp, Key::PageUp, Key::PageUp]);
                    (0..s.range(0, 5)).for_each(|_| keys.push(Key::ArrowDown));
                    keys.push(Key::Home);
                    (0..30).for_each(|_| keys.push(Key::Delete));
                }
                2 => {
                    let k = [Key::ArrowLeft, Key::ArrowDown, Key::ArrowRight, Key::End, Key::Tab];
                    keys.push(*s.pick(&k));
                }
                _ => keys.push(*s.pick(&[Key::Char('x'), Key::Backspace, Key::Delete, Key::NewLine])),
            }
        }
        let stop = if s.chance(1, 10) { Key::Interrupt } else { Key::Escape };
        keys.push(stop);
        for k in &keys {
            self.prog.key(k, 23);
        }
        self.keys.extend(keys);
        stop == Key::Interrupt
    }

    fn canonical(name: &str) -> (bool, String, String) {
        let (drive, path) = match name.split_once(':') {
            Some((d, p)) => (d.to_uppercase(), p),
            None => ("MEMORY".to_owned(), name),
        };
        let path = if path.contains('.') { path.to_owned() } else { format!("{}.bas", path) };
        let leaf = path.trim_start_matches('/').to_owned();
        (drive == "RO", format!("{}:{}", drive, path), leaf)
    }

    fn load(&mut self, name: &str) -> Result<(), String> {
        let (ro, full, leaf) = Self::canonical(name);
        let content = if ro {
            if leaf != "b.bas" {
                return Err("No such thing".to_owned());
            }
            b"ro".to_vec()
        } else {
            self.files.get(&leaf).cloned().ok_or("Entry not found")?
        };
        let text = String::from_utf8(content).map_err(|e| format!("Invalid file content: {}", e))?;
        self.prog.load(Some(&full), &text);
        Ok(())
    }

    fn save(&mut self, name: Option<&str>) -> Result<(), String> {
        let name = match name {
            Some(n) => n.to_owned(),
            None => self.prog.name.clone().ok_or("Unnamed program; please provide a filename")?,
        };
        let (ro, full, leaf) = Self::canonical(&name);
        if ro {
            return Err("Read-only target".to_owned());
        }
        self.files.insert(leaf, self.prog.text().into_bytes());
        self.prog.name = Some(full.clone());
        self.prog.dirty = false;
        self.say(format!("Saved as {}", full));
        Ok(())
    }

    /// Executes some statements, pushing the keys that they need.
    fn exec(&mut self, s: &mut Src, stmts: &[Stmt]) -> Result<Outcome, Unknown> {
        let mut stored = false;
        let r = self.exec_inner(s, stmts, &mut stored);
        if stored {
            self.resume = false;
        }
        r
    }

    fn exec_inner(&mut self, s: &mut Src, stmts: &[Stmt], stored: &mut bool) -> Result<Outcome, Unknown> {
        if let Err(e) = self.compile(stmts) {
            return Ok(Outcome::Error(e));
        }
        for (l, c, st) in stmts {
            let mut res: Result<(), (usize, String)> = Ok(());
            let mut brk = false;
            let mut cleared = false;
            match st {
                St::Set(v, n) => {
                    self.vars.insert(*v, Some(*n));
                }
                St::Inc(v) => match self.vars[v] {
                    Some(n) => {
                        self.vars.insert(*v, Some(n + 1));
                    }
                    None => return Err(Unknown),
                },
                St::Print(v) => match self.vars[v] {
                    Some(n) => self.say(format!(" {}", n)),
                    None => return Err(Unknown),
                },
                St::Text => self.say("hi"),
                St::ErrMsg => {
                    let m = self.last_err.clone().unwrap_or_default();
                    self.say(m);
                }
                St::End(n) => {
                    if !*stored {
                        return Ok(Outcome::Exit(*n));
                    }
                    if *n != 0 {
                        self.say(format!("Program exited with code {}", n));
                    }
                    return Ok(Outcome::Done);
                }
                St::Color(n) => match u8::try_from(*n) {
                    Ok(n) => self.fg = Some(n),
                    Err(_) => res = Err((6, "Color out of range".to_owned())),
                },
                St::Deg => self.deg = true,
                St::Rad => self.deg = false,
                St::Sin => {
                    let v = if self.deg { 90f64.to_radians().sin() } else { 90f64.sin() };
                    self.say(format!(" {}", v));
                }
                St::Resume => self.resume = true,
                St::NoResume => self.resume = false,
                St::Sleep(n) => {
                    self.slept.push(*n);
                    brk = *n == 7;
                }
                St::Clear => cleared = true,
                St::New => match self.ask(s) {
                    Ok(true) => {
                        self.prog.load(None, "");
                        cleared = true;
                    }
                    Ok(false) => self.say("NEW aborted; use SAVE to save your current changes."),
                    Err((b, m)) => {
                        brk = b;
                        res = Err((0, m.to_owned()));
                    }
                },
                St::Load(name) => match self.ask(s) {
                    Ok(true) => match self.load(name) {
                        Ok(()) => cleared = true,
                        Err(m) => res = Err((0, m)),
                    },
                    Ok(false) => self.say("LOAD aborted; use SAVE to save your current changes."),
                    Err((b, m)) => {
                        brk = b;
                        res = Err((0, m.to_owned()));
                    }
                },
                St::Run => {
                    let program = parse(&self.prog.text()).ok_or(Unknown)?;
                    self.clear();
                    if let Err(e) = self.compile(&program) {
                        self.labels.push("ran a bad program");
                        return Ok(Outcome::Error(e));
                    }
                    self.labels.push("ran a program");
                    *stored = true;
                    return self.exec_compiled(s, &program, stored);
                }
                St::List => {
                    if self.prog.lines.len() > 20 {
                        return Err(Unknown);
                    }
                    let lines: Vec<String> = self.prog.text().lines().map(str::to_owned).collect();
                    lines.into_iter().for_each(|l| self.say(l));
                }
                St::Edit => brk = self.edit(s),
                St::Save(name) => {
                    if let Err(m) = self.save(*name) {
                        res = Err((0, m));
                    }
                }
                St::Kill(name) => {
                    if self.files.remove(*name).is_none() {
                        res = Err((0, "Entry not found".to_owned()));
                    }
                }
                St::Sync => self.sync = false,
                St::Data(_) => (),
                St::Read(v) => match self.data.get(self.index) {
                    Some(n) => {
                        self.vars.insert(*v, Some(*n));
                        self.index += 1;
                    }
                    None => res = Err((5, "Out of data".to_owned())),
                },
                St::Restore => self.index = 0,
            }
            if let Err((off, m)) = &res {
                self.last_err = Some(format!("{}:{}: {}", l, c + off, m));
            }
            if brk {
                return Ok(Outcome::Break);
            }
            if res.is_err() && !self.resume {
                return Ok(Outcome::Error(self.last_err.clone().unwrap()));
            }
            if cleared {
                self.clear();
                return Ok(Outcome::Done);
            }
        }
        Ok(Outcome::Done)
    }

    fn exec_compiled(&mut self, s: &mut Src, program: &[Stmt], stored: &mut bool) -> Result<Outcome, Unknown> {
        // Already compiled, so do not account for the data again.
        let data = self.data.clone();
        let r = {
            self.data.clear();
            self.exec_inner(s, program, stored)
        };
        debug_assert!(data.len() >= self.data.len());
        r
    }
}

fn some_program(s: &mut Src) -> String {
    let w: Vec<u32> = STMTS.iter().map(|t| t.3).collect();
    (0..s.range(0, 6)).map(|_| format!("{}\n", STMTS[s.weighted(&w)].0)).collect()
}

/// Runs a session; true if about the stored program, false if about the state of the machine.
fn session(s: &mut Src, case: &mut Case, about_program: bool) -> CaseResult {
    let interactive = s.chance(1, 3);
    let mut m = Sess {
        vars: BTreeMap::new(),
        resume: false,
        last_err: None,
        deg: false,
        data: vec![],
        index: 0,
        fg: None,
        sync: true,
        prog: Model::default(),
        files: BTreeMap::new(),
        out: vec![],
        keys: vec![],
        slept: vec![],
        labels: vec![],
    };
    m.files.insert("bad.bas".to_owned(), b"ab\xffc".to_vec());
    m.files.insert("p.bas".to_owned(), some_program(s).into_bytes());
    m.files.insert("q.bas".to_owned(), some_program(s).into_bytes());
    let mut text = format!(
        "interactive {}\np.bas {:?}\nq.bas {:?}\n",
        interactive,
        String::from_utf8_lossy(&m.files["p.bas"]),
        String::from_utf8_lossy(&m.files["q.bas"])
    );

    let program: Rc<RefCell<dyn Program>> = Rc::from(RefCell::from(Editor::default()));
    let (b, con, clock, _, signals) = builder();
    let shared = Shared::default();
    let mut st = Storage::default();
    st.register_scheme("rec", Box::new(RecFactory(shared.clone())));
    st.mount("ro", "rec://ro").unwrap();
    for (k, v) in &m.files {
        block_on(st.put(k, v)).unwrap();
    }
    let storage = Rc::from(RefCell::from(st));

    // Starting with the program that runs by itself, which has no prompts to answer.
    let mut exit = None;
    let mut auto = None;
    if s.chance(1, 4) {
        let w: Vec<u32> = STMTS.iter().map(|t| t.2).collect();
        let mut lines = vec![];
        for _ in 0..s.range(0, 4) {
            let t = STMTS[s.weighted(&w)];
            if !matches!(t.1, St::Edit | St::New) {
                lines.push(t.0);
            }
        }
        let code = lines.join("\n");
        let stmts: Vec<Stmt> = lines
            .iter()
            .enumerate()
            .map(|(i, l)| (i + 1, 1, STMTS.iter().find(|t| t.0 == *l).unwrap().1))
            .collect();
        let mut m2 = m.clone();
        m2.files.insert("AUTOEXEC.BAS".to_owned(), code.clone().into_bytes());
        let r = m2.exec(s, &stmts);
        if let Ok(r) = r {
            match r {
                Outcome::Done | Outcome::Exit(_) => (),
                Outcome::Error(e) => m2.say(format!("AUTOEXEC.BAS failed: {}", e)),
                Outcome::Break => m2.say("AUTOEXEC.BAS failed: Break"),
            }
            m = m2;
            text += &format!("AUTOEXEC.BAS {:?}\n", code);
            block_on(storage.borrow_mut().put("AUTOEXEC.BAS", code.as_bytes())).unwrap();
            auto = Some(());
            m.labels.push("ran AUTOEXEC.BAS");
        }
    }

    let mut executed = 0;
    for _ in 0..s.range(1, 14) {
        if interactive {
            m.out.push("Ready".to_owned());
        }
        if s.chance(1, 25) {
            // An abandoned line.
            typed(*s.pick(&["", "NEW", "a = 5"]), &mut m.keys);
            m.keys.push(Key::Interrupt);
            m.say("**** BREAK ****");
            text += "(abandoned line)\n";
            continue;
        }
        let n = s.weighted(&[6, 3, 1]) + 1;
        let mut w: Vec<u32> = STMTS.iter().map(|t| t.2).collect();
        for (i, t) in STMTS.iter().enumerate() {
            let stored = matches!(
                t.1,
                St::New | St::Load(_) | St::Save(_) | St::Edit | St::Kill(_) | St::End(_)
            );
            if stored && !about_program && t.1 != St::Edit {
                w[i] = if matches!(t.1, St::Load(_)) { w[i] } else { 0 };
            } else if !stored && about_program && t.1 != St::Run {
                w[i] = w[i].min(1);
            }
        }
        let mut line = String::new();
        let mut stmts: Vec<Stmt> = vec![];
        for _ in 0..n {
            let t = STMTS[s.weighted(&w)];
            if !line.is_empty() {
                line += ": ";
            }
            stmts.push((1, line.chars().count() + 1, t.1));
            line += t.0;
        }
        let mut m2 = m.clone();
        typed(&line, &mut m2.keys);
        m2.keys.push(*s.pick(&[Key::NewLine, Key::CarriageReturn]));
        let r = match m2.exec(s, &stmts) {
            Ok(r) => {
                m = m2;
                r
            }
            Err(Unknown) => {
                line = "PRINT \"unknown\"".to_owned();
                typed(&line, &mut m.keys);
                m.keys.push(Key::NewLine);
                m.say("unknown");
                Outcome::Done
            }
        };
        text += &line;
        text.push('\n');
        executed += 1;
        match r {
            Outcome::Done => (),
            Outcome::Error(e) => m.say(format!("ERROR: {}", e)),
            Outcome::Break => m.say("**** BREAK ****"),
            Outcome::Exit(code) => {
                // Asking for the end of input here would leave.
                let ok = if !m.prog.dirty {
                    true
                } else {
                    m.unsaved();
                    m.labels.push("asked to discard changes on exit");
                    match s.weighted(&[2, 4, 1]) {
                        0 => {
                            typed("yes", &mut m.keys);
                            m.keys.push(Key::NewLine);
                            true
                        }
                        1 => {
                            typed(*s.pick(&["", "no", "x"]), &mut m.keys);
                            m.keys.push(Key::NewLine);
                            false
                        }
                        _ => {
                            m.keys.push(Key::Interrupt);
                            false
                        }
                    }
                };
                if ok {
                    exit = Some(code);
                    break;
                }
                m.say("Exit aborted; resuming REPL loop.");
            }
        }
    }
    if exit.is_none() {
        if interactive {
            m.out.push("Ready".to_owned());
        }
        m.keys.push(Key::EofOrDelete);
        m.say("End of input by CTRL-D");
        exit = Some(0);
    }
    text += &format!("(keys {})\n", crate::ui_props::show_keys(&m.keys));
    case.set_text(text);
    m.labels.iter().for_each(|l| case.label(l));
    case.nontrivial = executed >= 3;

    {
        let mut c = con.borrow_mut();
        c.interactive = interactive;
        c.keys = m.keys.iter().cloned().collect();
        c.keys_left_is_error = true;
        c.signals = Some(signals.0.clone());
    }
    *clock.break_on.borrow_mut() = Some((Duration::from_secs(7), signals.0.clone()));
    let mut machine =
        b.make_interactive().with_storage(storage.clone()).with_program(program.clone()).build();
    block_on(try_load_autoexec(&mut machine, con.clone(), storage.clone()))
        .map_err(|e| format!("AUTOEXEC.BAS: {}", e))?;
    let _ = auto;
    let r = block_on(run_repl_loop(&mut machine, con.clone(), program.clone()));

    let mut out = vec![];
    let mut alt = false;
    for e in con.borrow_mut().take() {
        match e.as_str() {
            "enter_alt" => alt = true,
            "leave_alt" => alt = false,
            _ => match e.strip_prefix("print ") {
                Some(l) if !alt && !l.is_empty() => out.push(l.to_owned()),
                _ => (),
            },
        }
    }
    if out != m.out {
        let at = out.iter().zip(&m.out).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "prints {:?} instead of {:?} after {:?} (result {:?})",
            out.get(at),
            m.out.get(at),
            &out[..at],
            r
        ));
    }
    match r {
        Ok(c) if Some(c) == exit => (),
        r => return Err(format!("exits with {:?} instead of {:?}", r, exit)),
    }
    let c = con.borrow();
    if !c.keys.is_empty() {
        return Err(format!("{} keys were not consumed", c.keys.len()));
    }
    if c.fg != m.fg || c.bg.is_some() || c.sync != m.sync {
        return Err(format!("console left with {:?} {:?} {}, not {:?} {}", c.fg, c.bg, c.sync, m.fg, m.sync));
    }
    let slept: Vec<u64> = clock.sleeps.borrow().iter().map(|d| d.as_secs()).collect();
    if slept != m.slept {
        return Err(format!("slept {:?} instead of {:?}", slept, m.slept));
    }
    let p = program.borrow();
    if p.text() != m.prog.text() || p.name() != m.prog.name.as_deref() || p.is_dirty() != m.prog.dirty {
        return Err(format!(
            "the program is {:?} {:?} {} instead of {:?} {:?} {}",
            p.name(),
            p.text(),
            p.is_dirty(),
            m.prog.name,
            m.prog.text(),
            m.prog.dirty
        ));
    }
    let st = storage.borrow();
    let found = block_on(st.enumerate("memory:")).map_err(|e| e.to_string())?;
    let names: Vec<&String> = found.dirents().keys().collect();
    if names != m.files.keys().collect::<Vec<_>>() {
        return Err(format!("files are {:?}", names));
    }
    for (k, v) in &m.files {
        let got = block_on(st.get(&format!("memory:{}", k))).map_err(|e| e.to_string())?;
        if got != *v {
            return Err(format!("file {} holds {:?} instead of {:?}", k, got, v));
        }
    }
    Ok(())
}

fn stored_program(s: &mut Src, case: &mut Case) -> CaseResult {
    session(s, case, true)
}

fn machine_state(s: &mut Src, case: &mut Case) -> CaseResult {
    session(s, case, false)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S05",
            rule: "at least 3 lines are executed",
            quick: 400000,
            thorough: 5000000,
            run: machine_state,
            assumptions: &["stored programs are made of a fixed set of statements"],
        },
        Prop {
            id: "S07",
            rule: "at least 3 lines are executed",
            quick: 400000,
            thorough: 5000000,
            run: stored_program,
            assumptions: &["stored programs are made of a fixed set of statements"],
        },
    ]
}
