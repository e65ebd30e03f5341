//! An independent model of the EndBASIC core language: an AST with a renderer to source text, a
//! resolver with static types, and a tree-walking reference interpreter.

use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Pos = (usize, usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    B,
    D,
    I,
    T,
}

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::B => "BOOLEAN",
            Ty::D => "DOUBLE",
            Ty::I => "INTEGER",
            Ty::T => "STRING",
        }
    }
    pub fn ann(self) -> char {
        match self {
            Ty::B => '?',
            Ty::D => '#',
            Ty::I => '%',
            Ty::T => '$',
        }
    }
    pub fn num(self) -> bool {
        matches!(self, Ty::D | Ty::I)
    }
    pub fn default(self) -> Val {
        match self {
            Ty::B => Val::B(false),
            Ty::D => Val::D(0.0),
            Ty::I => Val::I(0),
            Ty::T => Val::T("".into()),
        }
    }
    pub const ALL: [Ty; 4] = [Ty::I, Ty::D, Ty::B, Ty::T];
}

#[derive(Clone, Debug)]
pub enum Val {
    B(bool),
    D(f64),
    I(i32),
    T(Rc<str>),
}

impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::B(b) => format!("{}?", b),
            Val::D(d) => format!("{:?}#", d),
            Val::I(i) => format!("{}%", i),
            Val::T(s) => format!("{:?}$", s),
        }
    }
    pub fn ty(&self) -> Ty {
        match self {
            Val::B(_) => Ty::B,
            Val::D(_) => Ty::D,
            Val::I(_) => Ty::I,
            Val::T(_) => Ty::T,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Pow,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
    Xor,
}

impl Bop {
    pub const ALL: [Bop; 17] = [
        Bop::Add,
        Bop::Sub,
        Bop::Mul,
        Bop::Div,
        Bop::Mod,
        Bop::Pow,
        Bop::Shl,
        Bop::Shr,
        Bop::Eq,
        Bop::Ne,
        Bop::Lt,
        Bop::Le,
        Bop::Gt,
        Bop::Ge,
        Bop::And,
        Bop::Or,
        Bop::Xor,
    ];
    pub fn text(self) -> &'static str {
        match self {
            Bop::Add => "+",
            Bop::Sub => "-",
            Bop::Mul => "*",
            Bop::Div => "/",
            Bop::Mod => "MOD",
            Bop::Pow => "^",
            Bop::Shl => "<<",
            Bop::Shr => ">>",
            Bop::Eq => "=",
            Bop::Ne => "<>",
            Bop::Lt => "<",
            Bop::Le => "<=",
            Bop::Gt => ">",
            Bop::Ge => ">=",
            Bop::And => "AND",
            Bop::Or => "OR",
            Bop::Xor => "XOR",
        }
    }
    pub fn prio(self) -> u8 {
        match self {
            Bop::Pow => 6,
            Bop::Mul | Bop::Div | Bop::Mod => 4,
            Bop::Add | Bop::Sub => 3,
            Bop::Shl | Bop::Shr => 2,
            Bop::Eq | Bop::Ne | Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge => 1,
            Bop::And | Bop::Or | Bop::Xor => 0,
        }
    }
    pub fn relational(self) -> bool {
        self.prio() == 1
    }
}

/// Returns true if `e` reads the scalar variable `key`.
pub fn reads_name(e: &Ex, key: &str) -> bool {
    match &e.k {
        Ek::Var(n) => n.key() == key,
        Ek::Arr(_, v) | Ek::Call(_, v) => v.iter().any(|x| reads_name(x, key)),
        Ek::Neg(x) | Ek::Not(x) => reads_name(x, key),
        Ek::Bin(_, l, r) => reads_name(l, key) || reads_name(r, key),
        _ => false,
    }
}

const UNARY_PRIO: u8 = 5;

#[derive(Clone, Debug, PartialEq)]
pub struct Name {
    pub s: String,
    pub ann: Option<Ty>,
}

impl Name {
    pub fn new(s: impl Into<String>) -> Self {
        Name { s: s.into(), ann: None }
    }
    pub fn with(s: impl Into<String>, ann: Option<Ty>) -> Self {
        Name { s: s.into(), ann }
    }
    pub fn key(&self) -> String {
        self.s.to_ascii_uppercase()
    }
    pub fn shown(&self) -> String {
        match self.ann {
            Some(t) => format!("{}{}", self.s, t.ann()),
            None => self.s.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ek {
    Bool(bool),
    Int(i32),
    Dbl(String),
    Txt(String),
    Var(Name),
    Arr(Name, Vec<Ex>),
    Call(Name, Vec<Ex>),
    Neg(Box<Ex>),
    Not(Box<Ex>),
    Bin(Bop, Box<Ex>, Box<Ex>),
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub k: Ek,
    pub pos: Cell<Pos>,
    /// Redundant parentheses to write around the expression.
    pub parens: bool,
}

impl Ex {
    pub fn new(k: Ek) -> Self {
        Ex { k, pos: Cell::new((0, 0)), parens: false }
    }
    pub fn int(i: i32) -> Self {
        Ex::new(Ek::Int(i))
    }
    pub fn txt(s: &str) -> Self {
        Ex::new(Ek::Txt(s.to_owned()))
    }
    pub fn bool(b: bool) -> Self {
        Ex::new(Ek::Bool(b))
    }
    pub fn var(s: &str) -> Self {
        Ex::new(Ek::Var(Name::new(s)))
    }
    pub fn bin(op: Bop, l: Ex, r: Ex) -> Self {
        Ex::new(Ek::Bin(op, Box::new(l), Box::new(r)))
    }
    pub fn neg(e: Ex) -> Self {
        Ex::new(Ek::Neg(Box::new(e)))
    }
    pub fn not(e: Ex) -> Self {
        Ex::new(Ek::Not(Box::new(e)))
    }
    fn prio(&self) -> u8 {
        match &self.k {
            Ek::Bin(op, ..) => op.prio(),
            Ek::Neg(_) | Ek::Not(_) => UNARY_PRIO,
            _ => 99,
        }
    }
    /// Whether the rightmost operand, as written, is a unary operation without parentheses.
    fn ends_in_unary(&self) -> bool {
        if self.parens {
            return false;
        }
        match &self.k {
            Ek::Neg(_) | Ek::Not(_) => true,
            // The right operand is parenthesized unless it binds tighter or is unary.
            Ek::Bin(op, _, r) => !needs_parens_right(*op, r) && r.ends_in_unary(),
            _ => false,
        }
    }
    pub fn start(&self) -> Pos {
        match &self.k {
            Ek::Bin(_, l, _) => l.start(),
            _ => self.pos.get(),
        }
    }
    pub fn depth(&self) -> usize {
        match &self.k {
            Ek::Bin(_, l, r) => 1 + l.depth().max(r.depth()),
            Ek::Neg(e) | Ek::Not(e) => 1 + e.depth(),
            Ek::Arr(_, v) | Ek::Call(_, v) => {
                1 + v.iter().map(|e| e.depth()).max().unwrap_or_default()
            }
            _ => 0,
        }
    }
    pub fn nops(&self) -> usize {
        match &self.k {
            Ek::Bin(_, l, r) => 1 + l.nops() + r.nops(),
            Ek::Neg(e) | Ek::Not(e) => 1 + e.nops(),
            Ek::Arr(_, v) | Ek::Call(_, v) => 1 + v.iter().map(|e| e.nops()).sum::<usize>(),
            _ => 0,
        }
    }
}

fn needs_parens_left(op: Bop, l: &Ex) -> bool {
    l.parens || l.prio() < op.prio() || (op == Bop::Pow && l.ends_in_unary())
}

fn needs_parens_right(op: Bop, r: &Ex) -> bool {
    if r.parens {
        return true;
    }
    match &r.k {
        Ek::Neg(_) | Ek::Not(_) => false,
        Ek::Bin(o, ..) => o.prio() <= op.prio(),
        _ => false,
    }
}

#[derive(Clone, Debug)]
pub enum CaseGuard {
    Is(Bop, Ex),
    /// Written without IS.
    Eq(Ex),
    To(Ex, Ex),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OutSep {
    Short,
    Long,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OnErr {
    Goto(String),
    Reset,
    ResumeNext,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExitKind {
    Do,
    For,
    Sub,
    Function,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: Name,
    /// Use `AS TYPE` instead of an annotation.
    pub as_ty: bool,
}

#[derive(Clone, Debug)]
pub struct CallableDef {
    pub name: Name,
    pub is_fn: bool,
    pub params: Vec<Param>,
}

impl CallableDef {
    pub fn ret(&self) -> Option<Ty> {
        if self.is_fn { Some(self.name.ann.unwrap_or(Ty::I)) } else { None }
    }
}

#[derive(Clone, Debug)]
pub enum Sk {
    Assign(Name, Ex),
    AssignArr(Name, Vec<Ex>, Ex),
    Dim { name: String, shared: bool, ty: Option<Ty> },
    DimArr { name: String, shared: bool, dims: Vec<Ex>, ty: Option<Ty> },
    Out(Vec<(Option<Ex>, OutSep)>),
    If { branches: Vec<(Ex, Vec<St>)>, other: Option<Vec<St>>, uniline: bool },
    Select { test: Ex, cases: Vec<(Vec<CaseGuard>, Vec<St>)>, other: Option<Vec<St>> },
    For { var: Name, from: Ex, to: Ex, step: Option<StepLit>, body: Vec<St> },
    While(Ex, Vec<St>),
    Do { pre: Option<(bool, Ex)>, post: Option<(bool, Ex)>, body: Vec<St> },
    Label(String),
    Goto(String),
    Gosub(String),
    Return,
    Declare(CallableDef),
    Def(CallableDef, Vec<St>),
    CallSub(String, Vec<Ex>),
    /// Built-in command that sets a variable through a reference: `SETREF var, expr`.
    SetRef(Name, Ex),
    End(Option<Ex>),
    Exit(ExitKind),
    OnError(OnErr),
    Data(Vec<Option<Val>>),
    /// Arbitrary text, only for things that do not execute.
    Comment(String),
}

#[derive(Clone, Debug)]
pub enum StepLit {
    Int(i32),
    Dbl(String, bool),
}

#[derive(Clone, Debug)]
pub struct St {
    pub k: Sk,
    pub pos: Cell<Pos>,
    pub pos2: Cell<Pos>,
}

impl St {
    pub fn new(k: Sk) -> Self {
        St { k, pos: Cell::new((0, 0)), pos2: Cell::new((0, 0)) }
    }
}

pub type Prog = Vec<St>;

// ---------------------------------------------------------------------------------------------
// Rendering

/// Layout choices.
pub trait Layout {
    /// Returns a number below `n`; zero must be the canonical choice.
    fn pick(&mut self, n: u64) -> u64;
}

/// Always picks the canonical layout.
pub struct Canonical;
impl Layout for Canonical {
    fn pick(&mut self, _n: u64) -> u64 {
        0
    }
}

impl Layout for crate::engine::Src {
    fn pick(&mut self, n: u64) -> u64 {
        self.below(n)
    }
}

pub struct Renderer<'a> {
    pub out: String,
    line: usize,
    col: usize,
    layout: &'a mut dyn Layout,
    /// Whether free-form layout is in use (avoids asking for choices otherwise).
    free: bool,
    at_line_start: bool,
    indent: usize,
}

impl<'a> Renderer<'a> {
    pub fn new(layout: &'a mut dyn Layout, free: bool) -> Self {
        Renderer {
            out: String::new(),
            line: 1,
            col: 1,
            layout,
            free,
            at_line_start: true,
            indent: 0,
        }
    }

    fn pick(&mut self, n: u64) -> u64 {
        if self.free { self.layout.pick(n) } else { 0 }
    }

    fn raw(&mut self, s: &str) {
        for c in s.chars() {
            self.out.push(c);
            match c {
                '\n' => {
                    self.line += 1;
                    self.col = 1;
                    self.at_line_start = true;
                }
                '\t' => {
                    self.col = (self.col - 1) / 8 * 8 + 9;
                }
                _ => self.col += 1,
            }
        }
    }

    fn pos(&self) -> Pos {
        (self.line, self.col)
    }

    fn space(&mut self, required: bool) {
        if self.at_line_start {
            return;
        }
        if self.free {
            match self.pick(6) {
                0 | 1 => self.raw(" "),
                2 => self.raw(if required { " " } else { "" }),
                3 => self.raw("   "),
                4 => self.raw("\t"),
                _ => self.raw(if required { " " } else { "" }),
            }
        } else {
            self.raw(" ");
        }
    }

    fn case(&mut self, s: &str) -> String {
        if !self.free {
            return s.to_owned();
        }
        match self.pick(4) {
            0 => s.to_owned(),
            1 => s.to_ascii_lowercase(),
            2 => s.to_ascii_uppercase(),
            _ => {
                let mut o = String::new();
                for c in s.chars() {
                    if self.pick(2) == 0 {
                        o.push(c.to_ascii_uppercase());
                    } else {
                        o.push(c.to_ascii_lowercase());
                    }
                }
                o
            }
        }
    }

    /// Writes a keyword-like token, making sure it is separated from any previous word.
    fn kw(&mut self, s: &str) -> Pos {
        let s = self.case(s);
        self.word(&s)
    }

    fn word(&mut self, s: &str) -> Pos {
        let last = self.out.chars().last().unwrap_or('\n');
        let wordy = |c: char| {
            c.is_alphanumeric() || matches!(c, '_' | '?' | '#' | '%' | '$' | '"' | '&' | '@' | '.')
        };
        if last != '\n' && last != ' ' && last != '\t' && last != '(' {
            self.space(wordy(last));
        }
        self.begin();
        let p = self.pos();
        self.raw(s);
        p
    }

    fn op(&mut self, s: &str) -> Pos {
        if s.chars().next().unwrap().is_alphabetic() {
            return self.kw(s);
        }
        self.begin();
        let last = self.out.chars().last().unwrap_or('\n');
        if last != '(' {
            self.space(matches!(last, '<' | '>' | '='));
        }
        let p = self.pos();
        self.raw(s);
        p
    }

    /// Punctuation with no preceding space in canonical form.
    fn punct(&mut self, s: &str) -> Pos {
        self.begin();
        if self.free && self.pick(4) == 3 {
            self.raw(" ");
        }
        let p = self.pos();
        self.raw(s);
        p
    }

    fn begin(&mut self) {
        if self.at_line_start {
            self.at_line_start = false;
            if !self.free {
                for _ in 0..self.indent {
                    self.raw("    ");
                }
            } else {
                let n = self.pick(4);
                for _ in 0..n {
                    self.raw(" ");
                }
            }
        }
    }

    fn name(&mut self, n: &Name) -> Pos {
        let mut s = self.case(&n.s);
        if let Some(t) = n.ann {
            s.push(t.ann());
        }
        self.word(&s)
    }

    pub fn quote(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            if c == '"' || c == '\\' {
                o.push('\\');
            }
            o.push(c);
        }
        o.push('"');
        o
    }

    fn int_text(&mut self, i: i32) -> String {
        if i < 0 {
            return format!("&x_{:X}", i as u32);
        }
        match self.pick(12) {
            9 => {
                let h = format!("{:x}", i);
                if self.pick(2) == 1 { format!("&X{}", h) } else { format!("&x_{}", h) }
            }
            10 => format!("&b_{:b}", i),
            11 => format!("&o{:o}", i),
            8 => format!("&d_{}", i),
            7 => format!("00{}", i),
            _ => format!("{}", i),
        }
    }

    pub fn expr(&mut self, e: &Ex) {
        if e.parens {
            self.op("(");
            self.expr_inner(e);
            self.punct(")");
        } else {
            self.expr_inner(e);
        }
    }

    fn expr_parens(&mut self, e: &Ex, parens: bool) {
        if parens {
            self.op("(");
            self.expr_inner(e);
            self.punct(")");
        } else {
            self.expr_inner(e);
        }
    }

    /// Prints the first argument of a statement, which would read as an assignment to an array
    /// element if it had the form `(a) = b`.
    fn first_arg(&mut self, e: &Ex) {
        let mut amb = false;
        let mut x = e;
        while let (false, Ek::Bin(op, l, _)) = (x.parens, &x.k) {
            amb = *op == Bop::Eq && needs_parens_left(*op, l);
            if needs_parens_left(*op, l) {
                break;
            }
            x = l;
        }
        self.expr_parens(e, amb || e.parens);
    }

    fn arg_list(&mut self, v: &[Ex]) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.punct(",");
                self.expr(e);
            } else {
                self.first_arg(e);
            }
        }
    }

    fn expr_list(&mut self, v: &[Ex]) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.punct(",");
            }
            self.expr(e);
        }
    }

    fn expr_inner(&mut self, e: &Ex) {
        match &e.k {
            Ek::Bool(b) => e.pos.set(self.kw(if *b { "TRUE" } else { "FALSE" })),
            Ek::Int(i) => {
                let t = self.int_text(*i);
                e.pos.set(self.word(&t))
            }
            Ek::Dbl(s) => e.pos.set(self.word(s)),
            Ek::Txt(s) => e.pos.set(self.word(&Self::quote(s))),
            Ek::Var(n) => e.pos.set(self.name(n)),
            Ek::Arr(n, v) | Ek::Call(n, v) => {
                e.pos.set(self.name(n));
                if !v.is_empty() {
                    self.punct("(");
                    self.expr_list(v);
                    self.punct(")");
                }
            }
            Ek::Neg(x) => {
                e.pos.set(self.op("-"));
                let p = x.parens || x.prio() < UNARY_PRIO;
                self.expr_parens(x, p);
            }
            Ek::Not(x) => {
                e.pos.set(self.kw("NOT"));
                let p = x.parens || x.prio() < UNARY_PRIO;
                self.expr_parens(x, p);
            }
            Ek::Bin(op, l, r) => {
                self.expr_parens(l, needs_parens_left(*op, l));
                e.pos.set(self.op(op.text()));
                self.expr_parens(r, needs_parens_right(*op, r));
            }
        }
    }

    fn eol(&mut self) {
        if !self.free {
            self.raw("\n");
            return;
        }
        match self.pick(10) {
            0..=4 => self.raw("\n"),
            5 => self.raw("  ' a comment: with \"things\"\n"),
            6 => {
                self.space(true);
                self.kw("REM");
                self.raw(" IF THEN @foo\n");
            }
            7 => self.raw("\n\n"),
            8 => self.raw(" \t\n' only comment\n"),
            _ => self.raw(" : \n"),
        }
    }

    /// Terminates a simple statement.
    fn sep(&mut self) {
        if self.free {
            match self.pick(5) {
                3 => self.raw(":"),
                4 => self.raw(" : "),
                _ => self.eol(),
            }
        } else {
            self.raw("\n");
        }
    }

    fn callable_sig(&mut self, st: &St, d: &CallableDef) {
        self.kw(if d.is_fn { "FUNCTION" } else { "SUB" });
        st.pos.set(self.name(&d.name));
        if !d.params.is_empty() {
            self.punct("(");
            for (i, p) in d.params.iter().enumerate() {
                if i > 0 {
                    self.punct(",");
                }
                // DECLARE and the definition must spell parameters in the same way.
                if p.as_ty {
                    self.word(&p.name.s.clone());
                    self.kw("AS");
                    self.kw(p.name.ann.unwrap().name());
                } else {
                    self.word(&p.name.shown());
                }
            }
            self.punct(")");
        }
    }

    pub fn block(&mut self, b: &[St]) {
        self.indent += 1;
        for s in b {
            self.stmt(s);
        }
        self.indent -= 1;
    }

    pub fn prog(&mut self, b: &[St]) {
        for s in b {
            self.stmt(s);
        }
    }

    /// Renders a statement without its terminator, for use in uniline IFs.
    fn simple(&mut self, s: &St) {
        match &s.k {
            Sk::Assign(n, e) => {
                s.pos.set(self.name(n));
                self.op("=");
                self.expr(e);
            }
            Sk::AssignArr(n, subs, e) => {
                s.pos.set(self.name(n));
                self.punct("(");
                self.expr_list(subs);
                self.punct(")");
                self.op("=");
                self.expr(e);
            }
            Sk::Dim { name, shared, ty } => {
                self.kw("DIM");
                if *shared {
                    self.kw("SHARED");
                }
                s.pos.set(self.name(&Name::new(name.clone())));
                if let Some(ty) = ty {
                    self.kw("AS");
                    self.kw(ty.name());
                }
            }
            Sk::DimArr { name, shared, dims, ty } => {
                self.kw("DIM");
                if *shared {
                    self.kw("SHARED");
                }
                s.pos.set(self.name(&Name::new(name.clone())));
                self.punct("(");
                self.expr_list(dims);
                self.punct(")");
                if let Some(ty) = ty {
                    self.kw("AS");
                    self.kw(ty.name());
                }
            }
            Sk::Out(args) => {
                s.pos.set(self.kw("OUT"));
                for (i, (e, sep)) in args.iter().enumerate() {
                    if let Some(e) = e {
                        if i == 0 {
                            self.first_arg(e);
                        } else {
                            self.expr(e);
                        }
                    }
                    if i + 1 < args.len() {
                        self.punct(match sep {
                            OutSep::Short => ";",
                            OutSep::Long => ",",
                        });
                    }
                }
            }
            Sk::Goto(l) => {
                s.pos.set(self.kw("GOTO"));
                let l = self.label_text(l);
                self.word(&l);
            }
            Sk::Gosub(l) => {
                s.pos.set(self.kw("GOSUB"));
                let l = self.label_text(l);
                self.word(&l);
            }
            Sk::Return => s.pos.set(self.kw("RETURN")),
            Sk::CallSub(n, args) => {
                s.pos.set(self.name(&Name::new(n.clone())));
                self.arg_list(args);
            }
            Sk::SetRef(n, e) => {
                s.pos.set(self.kw("SETREF"));
                s.pos2.set(self.name(n));
                self.punct(",");
                self.expr(e);
            }
            Sk::End(e) => {
                s.pos.set(self.kw("END"));
                if let Some(e) = e {
                    self.expr(e);
                }
            }
            Sk::Exit(k) => {
                s.pos.set(self.kw("EXIT"));
                self.kw(match k {
                    ExitKind::Do => "DO",
                    ExitKind::For => "FOR",
                    ExitKind::Sub => "SUB",
                    ExitKind::Function => "FUNCTION",
                });
            }
            Sk::OnError(m) => {
                s.pos.set(self.kw("ON"));
                self.kw("ERROR");
                match m {
                    OnErr::Goto(l) => {
                        self.kw("GOTO");
                        let l = self.label_text(l);
                        self.word(&l);
                    }
                    OnErr::Reset => {
                        self.kw("GOTO");
                        self.word("0");
                    }
                    OnErr::ResumeNext => {
                        self.kw("RESUME");
                        self.kw("NEXT");
                    }
                }
            }
            Sk::Data(vals) => {
                s.pos.set(self.kw("DATA"));
                for (i, v) in vals.iter().enumerate() {
                    if i > 0 {
                        self.punct(",");
                    }
                    match v {
                        None => (),
                        Some(Val::B(b)) => {
                            self.kw(if *b { "TRUE" } else { "FALSE" });
                        }
                        Some(Val::D(d)) => {
                            let t = format!("{:?}", d.abs());
                            if d.is_sign_negative() {
                                self.op("-");
                            }
                            self.word(&t);
                        }
                        Some(Val::I(i)) => {
                            if *i < 0 && *i != i32::MIN {
                                self.op("-");
                                let t = format!("{}", i.abs());
                                self.word(&t);
                            } else {
                                let t = self.int_text(*i);
                                self.word(&t);
                            }
                        }
                        Some(Val::T(t)) => {
                            self.word(&Self::quote(t));
                        }
                    }
                }
            }
            Sk::Declare(d) => {
                self.kw("DECLARE");
                self.callable_sig(s, d);
            }
            _ => panic!("not a simple statement: {:?}", s.k),
        }
    }

    fn label_text(&mut self, l: &str) -> String {
        if l.starts_with(|c: char| c.is_ascii_digit()) { l.to_owned() } else { format!("@{}", l) }
    }

    pub fn stmt(&mut self, s: &St) {
        match &s.k {
            Sk::Comment(t) => {
                self.begin();
                self.raw(&format!("' {}\n", t));
            }
            Sk::Label(l) => {
                let l = self.label_text(l);
                s.pos.set(self.word(&l));
                // Labels can be followed by a statement without a separator.
                if !self.free || self.pick(2) == 0 { self.raw("\n") } else { self.raw(" ") }
            }
            Sk::Def(d, body) => {
                self.callable_sig(s, d);
                self.eol();
                self.block(body);
                self.kw("END");
                self.kw(if d.is_fn { "FUNCTION" } else { "SUB" });
                self.sep();
            }
            Sk::If { branches, other, uniline: true } => {
                let (g, body) = &branches[0];
                s.pos.set(self.kw("IF"));
                self.expr(g);
                self.kw("THEN");
                self.simple(&body[0]);
                if let Some(o) = other {
                    self.kw("ELSE");
                    self.simple(&o[0]);
                }
                self.eol();
            }
            Sk::If { branches, other, uniline: false } => {
                for (i, (g, body)) in branches.iter().enumerate() {
                    let p = self.kw(if i == 0 { "IF" } else { "ELSEIF" });
                    if i == 0 {
                        s.pos.set(p);
                    }
                    self.expr(g);
                    self.kw("THEN");
                    self.eol();
                    self.block(body);
                }
                if let Some(o) = other {
                    self.kw("ELSE");
                    self.eol();
                    self.block(o);
                }
                self.kw("END");
                self.kw("IF");
                self.sep();
            }
            Sk::Select { test, cases, other } => {
                s.pos.set(self.kw("SELECT"));
                self.kw("CASE");
                self.expr(test);
                self.eol();
                for (guards, body) in cases {
                    self.kw("CASE");
                    for (i, g) in guards.iter().enumerate() {
                        if i > 0 {
                            self.punct(",");
                        }
                        match g {
                            CaseGuard::Is(op, e) => {
                                self.kw("IS");
                                self.op(op.text());
                                self.expr(e);
                            }
                            CaseGuard::Eq(e) => self.expr(e),
                            CaseGuard::To(a, b) => {
                                self.expr(a);
                                self.kw("TO");
                                self.expr(b);
                            }
                        }
                    }
                    self.eol();
                    self.block(body);
                }
                if let Some(o) = other {
                    self.kw("CASE");
                    self.kw("ELSE");
                    self.eol();
                    self.block(o);
                }
                self.kw("END");
                self.kw("SELECT");
                self.sep();
            }
            Sk::For { var, from, to, step, body } => {
                self.kw("FOR");
                s.pos.set(self.name(var));
                self.op("=");
                self.expr(from);
                s.pos2.set(self.kw("TO"));
                self.expr(to);
                if let Some(st) = step {
                    self.kw("STEP");
                    match st {
                        StepLit::Int(i) => {
                            if *i < 0 {
                                self.op("-");
                            }
                            let t = format!("{}", i.unsigned_abs());
                            self.word(&t);
                        }
                        StepLit::Dbl(t, neg) => {
                            if *neg {
                                self.op("-");
                            }
                            self.word(t);
                        }
                    }
                }
                self.eol();
                self.block(body);
                self.kw("NEXT");
                self.sep();
            }
            Sk::While(g, body) => {
                s.pos.set(self.kw("WHILE"));
                self.expr(g);
                self.eol();
                self.block(body);
                self.kw("WEND");
                self.sep();
            }
            Sk::Do { pre, post, body } => {
                s.pos.set(self.kw("DO"));
                if let Some((until, g)) = pre {
                    self.kw(if *until { "UNTIL" } else { "WHILE" });
                    self.expr(g);
                }
                self.eol();
                self.block(body);
                self.kw("LOOP");
                if let Some((until, g)) = post {
                    self.kw(if *until { "UNTIL" } else { "WHILE" });
                    self.expr(g);
                }
                self.sep();
            }
            _ => {
                self.simple(s);
                self.sep();
            }
        }
    }
}

pub fn render(prog: &[St]) -> String {
    let mut c = Canonical;
    let mut r = Renderer::new(&mut c, false);
    r.prog(prog);
    r.out
}

pub fn render_free(prog: &[St], layout: &mut dyn Layout) -> String {
    let mut r = Renderer::new(layout, true);
    r.prog(prog);
    r.out
}

// ---------------------------------------------------------------------------------------------
// Resolution and typing

#[derive(Clone, Debug)]
pub struct CErr {
    pub pos: Pos,
    pub msg: String,
}

type CRes<T> = Result<T, CErr>;

fn cerr<T>(pos: Pos, msg: String) -> CRes<T> {
    Err(CErr { pos, msg })
}

#[derive(Clone, Copy, Debug)]
pub struct VRef {
    pub global: bool,
    pub idx: usize,
}

#[derive(Clone, Debug)]
pub enum Up {
    /// `TICK`: argless function that returns an increasing integer.
    Tick,
    /// `MIX(i%, d#, b?, s$)`: formats its arguments.
    Mix,
    /// `TOTAL(i1%, ..)`: wrapping sum of integers.
    Total,
    /// `LOGI(i%)`: logs and returns its argument.
    Logi,
    /// `FAILI(i%)`: fails when the argument is negative; returns it otherwise.
    Faili,
    /// `LASTERR`: returns the last error.
    LastErr,
}

#[derive(Clone, Debug)]
pub enum RE {
    Const(Val),
    Var(VRef),
    Arr(VRef, Vec<RE>, Pos),
    Call(usize, Vec<RE>, Pos),
    Up(Up, Vec<RE>, Pos),
    Neg(Box<RE>, Pos),
    Not(Box<RE>),
    Bin(Bop, Box<RE>, Box<RE>, Pos),
    ToD(Box<RE>),
    ToI(Box<RE>, Pos),
}

#[derive(Debug, Clone)]
pub enum Op {
    Assign(VRef, RE),
    AssignArr(VRef, Vec<RE>, RE, Pos),
    Dim(VRef, Ty),
    DimArr(VRef, Vec<RE>, Ty, Pos),
    Out(Vec<(Option<RE>, OutSep)>),
    SetRef(VRef, RE, Ty, Pos),
    Jz(RE, usize),
    Jnz(RE, usize),
    Jmp(usize),
    Gosub(usize, Pos),
    Return(Pos),
    CallSub(usize, Vec<RE>, Pos),
    /// Leaves the current callable.
    Leave,
    End(Option<RE>, Pos),
    OnErr(Option<Option<usize>>, bool),
    /// Evaluates the test of a SELECT into a hidden local.
    SetHidden(usize, RE),
    /// Jumps to the target if none of the guards match the hidden local.
    CaseNot(usize, Vec<(Bop, RE, Option<RE>)>, usize),
    /// Separator that is also a resumption point.
    Nop,
    Eof,
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub op: Op,
    /// Whether execution can resume here after an error in a previous statement.
    pub start: bool,
}

#[derive(Clone, Debug)]
struct Sym {
    idx: usize,
    ty: Ty,
    ndims: usize,
}

#[derive(Clone, Debug)]
struct FnInfo {
    def: CallableDef,
    addr: Option<usize>,
    /// Slots for the params.
    nslots: usize,
}

/// Incremental resolver.  All state persists across chunks.
#[derive(Clone, Default)]
pub struct Resolver {
    pub code: Vec<Instr>,
    globals: HashMap<String, Sym>,
    nglobals: usize,
    main: HashMap<String, Sym>,
    nmain: usize,
    local: Option<HashMap<String, Sym>>,
    nlocal: usize,
    fns: Vec<FnInfo>,
    fn_by_key: HashMap<String, usize>,
    labels: HashMap<String, usize>,
    fix: Vec<(usize, String)>,
    do_exits: Vec<Vec<usize>>,
    for_exits: Vec<Vec<usize>>,
    fn_exits: Vec<usize>,
    pub data: Vec<Option<Val>>,
}

fn bin_type(op: Bop, l: Ty, r: Ty) -> Option<Ty> {
    use Bop::*;
    let num = |l: Ty, r: Ty| {
        if l.num() && r.num() {
            Some(if l == Ty::I && r == Ty::I { Ty::I } else { Ty::D })
        } else {
            None
        }
    };
    match op {
        Add => {
            if l == Ty::T && r == Ty::T {
                Some(Ty::T)
            } else {
                num(l, r)
            }
        }
        Sub | Mul | Div | Mod | Pow => num(l, r),
        Shl | Shr => {
            if l == Ty::I && r == Ty::I {
                Some(Ty::I)
            } else {
                None
            }
        }
        And | Or | Xor => {
            if l == r && (l == Ty::I || l == Ty::B) {
                Some(l)
            } else {
                None
            }
        }
        Eq | Ne => {
            if l == r && !l.num() {
                Some(l)
            } else {
                num(l, r)
            }
        }
        Lt | Le | Gt | Ge => {
            if l == Ty::T && r == Ty::T {
                Some(l)
            } else {
                num(l, r)
            }
        }
    }
}

impl Resolver {
    pub fn new() -> Self {
        Self::default()
    }

    fn lookup(&self, key: &str) -> Option<(VRef, &Sym)> {
        let locals = self.local.as_ref().unwrap_or(&self.main);
        if let Some(s) = locals.get(key) {
            return Some((VRef { global: false, idx: s.idx }, s));
        }
        self.globals.get(key).map(|s| (VRef { global: true, idx: s.idx }, s))
    }

    fn new_local(&mut self) -> usize {
        if self.local.is_some() {
            self.nlocal += 1;
            self.nlocal - 1
        } else {
            self.nmain += 1;
            self.nmain - 1
        }
    }

    fn put_local(&mut self, key: String, ty: Ty, ndims: usize) -> VRef {
        let idx = self.new_local();
        let locals = self.local.as_mut().unwrap_or(&mut self.main);
        locals.insert(key, Sym { idx, ty, ndims });
        VRef { global: false, idx }
    }

    fn put_global(&mut self, key: String, ty: Ty, ndims: usize) -> VRef {
        let idx = self.nglobals;
        self.nglobals += 1;
        self.globals.insert(key, Sym { idx, ty, ndims });
        VRef { global: true, idx }
    }

    /// Returns whether the program variable or global `name` holds a value.
    pub fn has_value(&self, interp: &Interp, name: &str) -> bool {
        let key = Name::new(name).key();
        let (global, sym) = match (self.main.get(&key), self.globals.get(&key)) {
            (Some(s), _) => (false, s),
            (None, Some(s)) => (true, s),
            _ => return false,
        };
        if interp.tainted.iter().any(|v| v.global == global && v.idx == sym.idx) {
            return false;
        }
        let slot = match (self.main.get(&key), self.globals.get(&key)) {
            (Some(s), _) => interp.frames[0].get(s.idx),
            (None, Some(s)) => interp.globals.get(s.idx),
            _ => None,
        };
        !matches!(slot, None | Some(Slot::Uninit))
    }

    /// Returns the scalar variables of the program or the globals, sorted by name.
    pub fn scalars(&self, interp: &Interp, global: bool) -> Vec<(String, Option<Val>)> {
        let (syms, slots) = if global {
            (&self.globals, &interp.globals)
        } else {
            (&self.main, &interp.frames[0])
        };
        let mut v: Vec<(String, Option<Val>)> = syms
            .iter()
            .filter(|(_, s)| s.ndims == 0)
            .map(|(n, s)| {
                let v = match slots.get(s.idx) {
                    Some(Slot::Val(v)) => Some(v.clone()),
                    _ => None,
                };
                (n.clone(), v)
            })
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }

    /// Returns the arrays of the program or the globals, sorted by name.
    pub fn arrays<'a>(&self, interp: &'a Interp, global: bool) -> Vec<(String, Option<&'a Arr>)> {
        let (syms, slots) = if global {
            (&self.globals, &interp.globals)
        } else {
            (&self.main, &interp.frames[0])
        };
        let mut v: Vec<(String, Option<&'a Arr>)> = syms
            .iter()
            .filter(|(_, s)| s.ndims != 0)
            .map(|(n, s)| {
                let v = match slots.get(s.idx) {
                    Some(Slot::Arr(v)) => Some(v),
                    _ => None,
                };
                (n.clone(), v)
            })
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }

    /// Returns the variables that hold a value in `snap`: name, whether it is a global, and value.
    pub fn snap_vars<'a>(&self, snap: &'a Snap) -> Vec<(String, bool, Result<&'a Val, &'a Arr>)> {
        let mut v = vec![];
        for (global, syms, slots) in
            [(false, &self.main, &snap.main), (true, &self.globals, &snap.globals)]
        {
            for (n, s) in syms {
                if snap.skip.iter().any(|v| v.global == global && v.idx == s.idx) {
                    continue;
                }
                match slots.get(s.idx) {
                    Some(Slot::Val(x)) => v.push((n.clone(), global, Ok(x))),
                    Some(Slot::Arr(a)) => v.push((n.clone(), global, Err(a))),
                    _ => (),
                }
            }
        }
        v.sort_by(|a, b| (a.1, &a.0).cmp(&(b.1, &b.0)));
        v
    }

    pub fn clear_handler(interp: &mut Interp) {
        interp.handler = Handler::None;
    }

    pub fn num_globals(&self) -> usize {
        self.nglobals
    }

    fn builtin(key: &str) -> Option<(Up, Vec<Ty>, bool, Ty)> {
        match key {
            "TICK" => Some((Up::Tick, vec![], false, Ty::I)),
            "MIX" => Some((Up::Mix, vec![Ty::I, Ty::D, Ty::B, Ty::T], false, Ty::T)),
            "TOTAL" => Some((Up::Total, vec![], true, Ty::I)),
            "LOGI" => Some((Up::Logi, vec![Ty::I], false, Ty::I)),
            "FAILI" => Some((Up::Faili, vec![Ty::I], false, Ty::I)),
            "LASTERR" => Some((Up::LastErr, vec![], false, Ty::T)),
            _ => None,
        }
    }

    pub fn expr(&mut self, e: &Ex) -> CRes<(RE, Ty)> {
        let pos = e.pos.get();
        match &e.k {
            Ek::Bool(b) => Ok((RE::Const(Val::B(*b)), Ty::B)),
            Ek::Int(i) => Ok((RE::Const(Val::I(*i)), Ty::I)),
            Ek::Dbl(s) => Ok((RE::Const(Val::D(s.parse().unwrap())), Ty::D)),
            Ek::Txt(s) => Ok((RE::Const(Val::T(s.as_str().into())), Ty::T)),
            Ek::Var(n) => {
                if let Some((v, s)) = self.lookup(&n.key()) {
                    if n.ann.is_some() && n.ann != Some(s.ty) {
                        return cerr(
                            pos,
                            format!("Incompatible type annotation in {} reference", n.shown()),
                        );
                    }
                    if s.ndims != 0 {
                        return cerr(
                            pos,
                            format!("{} is an array and requires subscripts", n.shown()),
                        );
                    }
                    return Ok((RE::Var(v), s.ty));
                }
                self.call(n, &[], pos)
            }
            Ek::Arr(n, subs) => {
                let Some((v, s)) = self.lookup(&n.key()) else {
                    return cerr(pos, format!("Undefined symbol {}", n.shown()));
                };
                let s = s.clone();
                if n.ann.is_some() && n.ann != Some(s.ty) {
                    return cerr(
                        pos,
                        format!("Incompatible type annotation in {} reference", n.shown()),
                    );
                }
                if s.ndims != subs.len() {
                    return cerr(
                        pos,
                        format!("Array requires {} subscripts but got {}", s.ndims, subs.len()),
                    );
                }
                let mut r = vec![];
                for x in subs {
                    r.push(self.expr_as(x, Ty::I)?);
                }
                Ok((RE::Arr(v, r, pos), s.ty))
            }
            Ek::Call(n, args) => self.call(n, args, pos),
            Ek::Neg(x) => {
                let (r, t) = self.expr(x)?;
                if !t.num() {
                    return cerr(pos, format!("{} is not a number", t.name()));
                }
                Ok((RE::Neg(Box::new(r), pos), t))
            }
            Ek::Not(x) => {
                let (r, t) = self.expr(x)?;
                if t != Ty::B && t != Ty::I {
                    return cerr(pos, format!("Expected INTEGER but found {}", t.name()));
                }
                Ok((RE::Not(Box::new(r)), t))
            }
            Ek::Bin(op, l, r) => {
                let (lr, lt) = self.expr(l)?;
                let (rr, rt) = self.expr(r)?;
                let Some(t) = bin_type(*op, lt, rt) else {
                    return cerr(
                        pos,
                        format!("Cannot {} {} and {}", op.text(), lt.name(), rt.name()),
                    );
                };
                let lr = if t == Ty::D && lt == Ty::I { RE::ToD(Box::new(lr)) } else { lr };
                let rr = if t == Ty::D && rt == Ty::I { RE::ToD(Box::new(rr)) } else { rr };
                let res = if op.relational() { Ty::B } else { t };
                Ok((RE::Bin(*op, Box::new(lr), Box::new(rr), pos), res))
            }
        }
    }

    fn call(&mut self, n: &Name, args: &[Ex], pos: Pos) -> CRes<(RE, Ty)> {
        if let Some(fi) = self.fn_by_key.get(&n.key()).copied() {
            let def = self.fns[fi].def.clone();
            let ret = def.ret().expect("only functions are used in expressions");
            let mut r = vec![];
            for (a, p) in args.iter().zip(&def.params) {
                r.push(self.expr_as(a, p.name.ann.unwrap_or(Ty::I))?);
            }
            return Ok((RE::Call(fi, r, pos), ret));
        }
        if let Some((up, tys, rep, ret)) = Self::builtin(&n.key()) {
            let mut r = vec![];
            for (i, a) in args.iter().enumerate() {
                let t = if rep { Ty::I } else { tys[i] };
                r.push(self.expr_as(a, t)?);
            }
            return Ok((RE::Up(up, r, pos), ret));
        }
        cerr(pos, format!("Undefined symbol {}", n.shown()))
    }

    pub fn expr_as(&mut self, e: &Ex, want: Ty) -> CRes<RE> {
        let (r, t) = self.expr(e)?;
        if t == want {
            return Ok(r);
        }
        match (t, want) {
            (Ty::I, Ty::D) => Ok(RE::ToD(Box::new(r))),
            (Ty::D, Ty::I) => Ok(RE::ToI(Box::new(r), e.start())),
            _ if want.num() => cerr(e.start(), format!("{} is not a number", t.name())),
            _ => cerr(e.start(), format!("Expected {} but found {}", want.name(), t.name())),
        }
    }

    fn emit(&mut self, op: Op) -> usize {
        self.code.push(Instr { op, start: true });
        self.code.len() - 1
    }

    fn emit_aux(&mut self, op: Op) -> usize {
        self.code.push(Instr { op, start: false });
        self.code.len() - 1
    }

    fn patch(&mut self, at: usize, to: usize) {
        match &mut self.code[at].op {
            Op::Jz(_, t) | Op::Jnz(_, t) | Op::Jmp(t) | Op::CaseNot(_, _, t) => *t = to,
            Op::Gosub(t, _) => *t = to,
            Op::OnErr(Some(Some(t)), _) => *t = to,
            o => panic!("cannot patch {:?}", o),
        }
    }

    fn assign(&mut self, n: &Name, e: &Ex, pos: Pos) -> CRes<(VRef, RE)> {
        if let Some((v, s)) = self.lookup(&n.key()) {
            let ty = s.ty;
            if n.ann.is_some() && n.ann != Some(ty) {
                return cerr(
                    pos,
                    format!("Incompatible type annotation in {} reference", n.shown()),
                );
            }
            if s.ndims != 0 {
                return cerr(pos, format!("{} is an array and requires subscripts", n.shown()));
            }
            let v2 = v;
            let r = self.expr_as(e, ty).map_err(|mut er| {
                if let Some(rest) = er.msg.strip_prefix("Expected ") {
                    // Only the outermost mismatch gets reworded.
                    if let Some((w, f)) = rest.split_once(" but found ") {
                        er.msg = format!("Cannot assign value of type {} to variable of type {}", f, w);
                    }
                }
                er
            })?;
            return Ok((v2, r));
        }
        // New variable: its type comes from the annotation or from the expression.
        if reads_name(e, &n.key()) {
            // The expression can read the variable that it defines, as an integer if not annotated.
            let v = self.put_local(n.key(), n.ann.unwrap_or(Ty::I), 0);
            return match n.ann {
                Some(t) => Ok((v, self.expr_as(e, t)?)),
                None => {
                    let (r, t) = self.expr(e)?;
                    self.local.as_mut().unwrap_or(&mut self.main).get_mut(&n.key()).unwrap().ty = t;
                    Ok((v, r))
                }
            };
        }
        match n.ann {
            Some(t) => {
                let r = self.expr_as(e, t)?;
                Ok((self.put_local(n.key(), t, 0), r))
            }
            None => {
                let (r, t) = self.expr(e)?;
                Ok((self.put_local(n.key(), t, 0), r))
            }
        }
    }

    fn stmts(&mut self, b: &[St]) -> CRes<()> {
        for s in b {
            self.stmt(s)?;
        }
        Ok(())
    }

    fn stmt(&mut self, s: &St) -> CRes<()> {
        let pos = s.pos.get();
        match &s.k {
            Sk::Comment(_) => (),
            Sk::Assign(n, e) => {
                let (v, r) = self.assign(n, e, pos)?;
                self.emit(Op::Assign(v, r));
            }
            Sk::AssignArr(n, subs, e) => {
                let Some((v, sym)) = self.lookup(&n.key()) else {
                    return cerr(pos, format!("{} is not an array", n.shown()));
                };
                let (ty, nd) = (sym.ty, sym.ndims);
                if n.ann.is_some() && n.ann != Some(ty) {
                    return cerr(
                        pos,
                        format!("Incompatible type annotation in {} reference", n.shown()),
                    );
                }
                if nd == 0 {
                    return cerr(pos, format!("{} is not an array", n.shown()));
                }
                if nd != subs.len() {
                    return cerr(
                        pos,
                        format!("Array requires {} subscripts but got {}", nd, subs.len()),
                    );
                }
                let value = self.expr_as(e, ty)?;
                let mut r = vec![];
                for x in subs {
                    r.push(self.expr_as(x, Ty::I)?);
                }
                self.emit(Op::AssignArr(v, r, value, pos));
            }
            Sk::Dim { name, shared, ty } => {
                let ty = ty.unwrap_or(Ty::I);
                let key = name.to_ascii_uppercase();
                let v = if *shared {
                    self.put_global(key, ty, 0)
                } else {
                    self.put_local(key, ty, 0)
                };
                self.emit(Op::Dim(v, ty));
            }
            Sk::DimArr { name, shared, dims, ty } => {
                let ty = ty.unwrap_or(Ty::I);
                let key = name.to_ascii_uppercase();
                let mut r = vec![];
                for x in dims {
                    r.push(self.expr_as(x, Ty::I)?);
                }
                let v = if *shared {
                    self.put_global(key, ty, dims.len())
                } else {
                    self.put_local(key, ty, dims.len())
                };
                self.emit(Op::DimArr(v, r, ty, pos));
            }
            Sk::Out(args) => {
                let mut r = vec![];
                for (e, sep) in args {
                    r.push((
                        match e {
                            Some(e) => Some(self.expr(e)?.0),
                            None => None,
                        },
                        *sep,
                    ));
                }
                self.emit(Op::Out(r));
            }
            Sk::If { branches, other, .. } => {
                let mut ends = vec![];
                let n = branches.len();
                for (i, (g, body)) in branches.iter().enumerate() {
                    let g = self.guard(g)?;
                    let jz = self.emit(Op::Jz(g, 0));
                    if i > 0 {
                        self.code[jz].start = false;
                    }
                    self.stmts(body)?;
                    let last = i + 1 == n && other.is_none();
                    if !last {
                        ends.push(self.emit(Op::Jmp(0)));
                    }
                    let here = self.code.len();
                    self.patch(jz, here);
                }
                if let Some(o) = other {
                    self.stmts(o)?;
                }
                let here = self.code.len();
                for e in ends {
                    self.patch(e, here);
                }
            }
            Sk::Select { test, cases, other } => {
                let (t, tt) = self.expr(test)?;
                let hidden = self.new_local();
                self.emit(Op::SetHidden(hidden, t));
                let mut ends = vec![];
                let n = cases.len();
                // All guards are validated before any of the bodies.
                for g in cases.iter().flat_map(|c| &c.0) {
                    let (op, a, b) = match g {
                        CaseGuard::Is(op, e) => (*op, e, None),
                        CaseGuard::Eq(e) => (Bop::Eq, e, None),
                        CaseGuard::To(a, b) => (Bop::Ge, a, Some(b)),
                    };
                    self.case_expr(a, tt, op, a.start())?;
                    if let Some(b) = b {
                        self.case_expr(b, tt, Bop::Le, a.start())?;
                    }
                }
                for (i, (guards, body)) in cases.iter().enumerate() {
                    let mut gs = vec![];
                    for g in guards {
                        let (op, a, b) = match g {
                            CaseGuard::Is(op, e) => (*op, e, None),
                            CaseGuard::Eq(e) => (Bop::Eq, e, None),
                            CaseGuard::To(a, b) => (Bop::Ge, a, Some(b)),
                        };
                        let pos = a.start();
                        let a = self.case_expr(a, tt, op, pos)?;
                        let b = match b {
                            Some(b) => Some(self.case_expr(b, tt, Bop::Le, pos)?),
                            None => None,
                        };
                        gs.push((op, a, b));
                    }
                    let cn = self.emit_aux(Op::CaseNot(hidden, gs, 0));
                    self.stmts(body)?;
                    if i + 1 < n || other.is_some() {
                        ends.push(self.emit(Op::Jmp(0)));
                    }
                    let here = self.code.len();
                    self.patch(cn, here);
                }
                if let Some(o) = other {
                    self.stmts(o)?;
                }
                let here = self.code.len();
                for e in ends {
                    self.patch(e, here);
                }
            }
            Sk::For { var, from, to, step, body } => {
                // A double step makes an undeclared iterator a double.
                let is_dbl_step = matches!(step, Some(StepLit::Dbl(..)));
                if is_dbl_step && self.lookup(&var.key()).is_none() && var.ann.is_none() {
                    self.put_local(var.key(), Ty::D, 0);
                }
                let (v, r) = self.assign(var, from, pos)?;
                self.emit(Op::Assign(v, r));
                let top = self.code.len();
                let neg = match step {
                    Some(StepLit::Int(i)) => *i < 0,
                    Some(StepLit::Dbl(_, neg)) => *neg,
                    None => false,
                };
                let it = Ex::new(Ek::Var(Name::new(var.s.clone())));
                it.pos.set(pos);
                let cond =
                    Ex::bin(if neg { Bop::Ge } else { Bop::Le }, it.clone(), to.clone());
                cond.pos.set(s.pos2.get());
                let g = self.guard(&cond)?;
                let jz = self.emit_aux(Op::Jz(g, 0));
                self.for_exits.push(vec![]);
                self.stmts(body)?;
                let stepv = match step {
                    None => Ex::int(1),
                    Some(StepLit::Int(i)) => Ex::int(*i),
                    Some(StepLit::Dbl(t, neg)) => {
                        Ex::new(Ek::Dbl(if *neg { format!("-{}", t) } else { t.clone() }))
                    }
                };
                let next = Ex::bin(Bop::Add, it, stepv);
                next.pos.set(s.pos2.get());
                let (v, r) = self.assign(var, &next, pos)?;
                self.emit(Op::Assign(v, r));
                self.emit_aux(Op::Jmp(top));
                let here = self.code.len();
                self.patch(jz, here);
                for e in self.for_exits.pop().unwrap() {
                    self.patch(e, here);
                }
            }
            Sk::While(g, body) => {
                let g = self.guard(g)?;
                let top = self.emit(Op::Jz(g, 0));
                self.stmts(body)?;
                self.emit(Op::Jmp(top));
                let here = self.code.len();
                self.patch(top, here);
            }
            Sk::Do { pre, post, body } => {
                let top = self.code.len();
                self.do_exits.push(vec![]);
                let mut jx = None;
                if let Some((until, g)) = pre {
                    let g = self.guard(g)?;
                    jx = Some(self.emit(if *until { Op::Jnz(g, 0) } else { Op::Jz(g, 0) }));
                }
                self.stmts(body)?;
                match post {
                    Some((until, g)) => {
                        let g = self.guard(g)?;
                        self.emit(if *until { Op::Jz(g, top) } else { Op::Jnz(g, top) });
                    }
                    None => {
                        self.emit(Op::Jmp(top));
                    }
                }
                let here = self.code.len();
                if let Some(j) = jx {
                    self.patch(j, here);
                }
                for e in self.do_exits.pop().unwrap() {
                    self.patch(e, here);
                }
            }
            Sk::Label(l) => {
                let here = self.code.len();
                self.labels.insert(l.to_ascii_uppercase(), here);
            }
            Sk::Goto(l) => {
                let at = self.emit(Op::Jmp(0));
                self.fix.push((at, l.to_ascii_uppercase()));
            }
            Sk::Gosub(l) => {
                let at = self.emit(Op::Gosub(0, pos));
                self.fix.push((at, l.to_ascii_uppercase()));
            }
            Sk::Return => {
                self.emit(Op::Return(pos));
            }
            Sk::Declare(d) => {
                self.declare(d);
            }
            Sk::Def(d, body) => {
                let fi = self.declare(d);
                let skip = self.emit(Op::Jmp(0));
                self.fns[fi].addr = Some(self.code.len());
                let saved_local = self.local.replace(HashMap::new());
                let saved_n = std::mem::replace(&mut self.nlocal, 0);
                let saved_exits = std::mem::take(&mut self.fn_exits);
                if let Some(t) = d.ret() {
                    self.put_local(d.name.key(), t, 0);
                }
                for p in &d.params {
                    self.put_local(p.name.key(), p.name.ann.unwrap_or(Ty::I), 0);
                }
                self.stmts(body)?;
                let at = self.emit(Op::Leave);
                for e in std::mem::replace(&mut self.fn_exits, saved_exits) {
                    self.patch(e, at);
                }
                self.fns[fi].nslots = self.nlocal;
                self.local = saved_local;
                self.nlocal = saved_n;
                let here = self.code.len();
                self.patch(skip, here);
            }
            Sk::CallSub(n, args) => {
                let fi = self.fn_by_key[&n.to_ascii_uppercase()];
                let def = self.fns[fi].def.clone();
                let mut r = vec![];
                for (a, p) in args.iter().zip(&def.params) {
                    r.push(self.expr_as(a, p.name.ann.unwrap_or(Ty::I))?);
                }
                self.emit(Op::CallSub(fi, r, pos));
            }
            Sk::SetRef(n, e) => {
                // References define undefined variables as integers.
                let undefined = self.lookup(&n.key()).is_none();
                if undefined {
                    let ty = n.ann.unwrap_or(Ty::I);
                    let v = self.put_local(n.key(), ty, 0);
                    self.emit(Op::Dim(v, ty));
                }
                let (v, sym) = self.lookup(&n.key()).unwrap();
                let ty = sym.ty;
                if n.ann.is_some() && n.ann != Some(ty) {
                    return cerr(
                        s.pos2.get(),
                        format!("Incompatible type annotation in {} reference", n.shown()),
                    );
                }
                let (r, _) = self.expr(e)?;
                let at = self.emit(Op::SetRef(v, r, ty, pos));
                if undefined {
                    self.code[at].start = false;
                }
            }
            Sk::End(e) => {
                // Literal codes get validated upfront.
                let code = match e.as_ref().map(|e| (&e.k, e.pos.get())) {
                    Some((Ek::Int(i), p)) => Some((*i, p)),
                    Some((Ek::Neg(x), p)) => match &x.k {
                        Ek::Int(i) => i.checked_neg().map(|i| (i, p)),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((i, p)) = code
                    && !(0..=127).contains(&i)
                {
                    return cerr(p, "Exit code must be in the 0..127 range".to_owned());
                }
                let r = match e {
                    Some(e) => Some(self.expr_as(e, Ty::I)?),
                    None => None,
                };
                self.emit(Op::End(r, pos));
            }
            Sk::Exit(k) => {
                let at = self.emit(Op::Jmp(0));
                match k {
                    ExitKind::Do => self.do_exits.last_mut().unwrap().push(at),
                    ExitKind::For => self.for_exits.last_mut().unwrap().push(at),
                    ExitKind::Sub | ExitKind::Function => self.fn_exits.push(at),
                }
            }
            Sk::OnError(m) => match m {
                OnErr::Goto(l) => {
                    let at = self.emit(Op::OnErr(Some(Some(0)), false));
                    self.fix.push((at, l.to_ascii_uppercase()));
                }
                OnErr::Reset => {
                    self.emit(Op::OnErr(None, false));
                }
                OnErr::ResumeNext => {
                    self.emit(Op::OnErr(None, true));
                }
            },
            Sk::Data(v) => self.data.extend(v.iter().cloned()),
        }
        Ok(())
    }

    fn case_expr(&mut self, e: &Ex, tt: Ty, op: Bop, pos: Pos) -> CRes<RE> {
        let (r, t) = self.expr(e)?;
        if bin_type(op, tt, t).is_none() {
            return cerr(pos, format!("Cannot {} {} and {}", op.text(), tt.name(), t.name()));
        }
        // Comparisons against doubles and integers promote both sides to doubles.
        if tt == Ty::D && t == Ty::I {
            return Ok(RE::ToD(Box::new(r)));
        }
        Ok(r)
    }

    fn guard(&mut self, e: &Ex) -> CRes<RE> {
        self.expr_as(e, Ty::B)
    }

    fn declare(&mut self, d: &CallableDef) -> usize {
        if let Some(i) = self.fn_by_key.get(&d.name.key()) {
            return *i;
        }
        self.fns.push(FnInfo { def: d.clone(), addr: None, nslots: 0 });
        self.fn_by_key.insert(d.name.key(), self.fns.len() - 1);
        self.fns.len() - 1
    }

    /// Resolves a new chunk of code, which becomes executable from the returned address.
    pub fn chunk(&mut self, prog: &[St]) -> CRes<usize> {
        // Drop the previous EOF marker so that execution can continue.
        if matches!(self.code.last().map(|i| &i.op), Some(Op::Eof)) {
            let at = self.code.len() - 1;
            self.code[at] = Instr { op: Op::Nop, start: false };
        }
        let start = self.code.len();
        self.stmts(prog)?;
        self.emit(Op::Eof);
        for (at, l) in std::mem::take(&mut self.fix) {
            let to = self.labels[&l];
            self.patch(at, to);
        }
        Ok(start)
    }
}

// ---------------------------------------------------------------------------------------------
// Reference interpreter

#[derive(Clone, Debug)]
pub struct Arr {
    pub dims: Vec<usize>,
    pub vals: Vec<Val>,
}

impl Arr {
    pub fn index(&self, subs: &[i32]) -> Result<usize, String> {
        let mut at = 0;
        let mut mult = 1;
        for (s, d) in subs.iter().zip(&self.dims) {
            if *s < 0 {
                return Err(format!("Subscript {} cannot be negative", s));
            }
            if *s as usize >= *d {
                return Err(format!("Subscript {} exceeds limit of {}", s, d));
            }
            at += *s as usize * mult;
            mult *= d;
        }
        Ok(at)
    }
}

#[derive(Clone, Debug, Default)]
pub enum Slot {
    #[default]
    Uninit,
    Val(Val),
    Arr(Arr),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Handler {
    None,
    Jump { to: usize, active: bool, depth: usize },
    ResumeNext,
}

/// How a run finished.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Eof,
    End(i32),
    Exc(Pos, String),
}

enum Abort {
    /// Unhandled runtime error.
    Err(Pos, String),
    End(i32),
    /// Transfer to the error handler at the given callable depth.
    Handler(usize),
    /// Ran for too long.
    Budget,
    /// The generated program left the modelled domain.
    Domain(&'static str),
}

type IRes<T> = Result<T, Abort>;

pub struct Interp {
    globals: Vec<Slot>,
    frames: Vec<Vec<Slot>>,
    gosubs: Vec<Vec<usize>>,
    handler: Handler,
    pub out: Vec<String>,
    ticks: i32,
    last_err: Option<(Pos, String)>,
    budget: u64,
    nstack: usize,
    pub max_stack: usize,
    /// Calls refused because the stack was full.
    pub overflows: u64,
    pub steps: u64,
    pub errors_raised: u64,
    pub max_depth: usize,
    pub calls: u64,
    pub casts: u64,
    pub handled: u64,
    /// Variables that were targets of assignments that failed.
    tainted: Vec<VRef>,
    /// Treat those variables as if they had never been assigned.
    pub forget_failed: bool,
    /// Program variables and globals that are targets of ongoing assignments.
    busy: Vec<VRef>,
    /// Number of host commands and functions invoked.
    pub upcalls: u64,
    /// Take a snapshot at the upcall for which this counter reaches zero.
    pub watch: Option<u64>,
    /// Whether only upcalls made by callables count for `watch`.
    pub watch_nested: bool,
    pub snap: Option<Snap>,
}

/// Variables at the time of an upcall.
pub struct Snap {
    /// Number of upcalls made before.
    pub upcalls: u64,
    pub depth: usize,
    globals: Vec<Slot>,
    main: Vec<Slot>,
    skip: Vec<VRef>,
}

/// Result of interpreting: `None` if outside of the domain or over budget.
pub type RunResult = Result<Stop, &'static str>;

pub fn double_to_int(d: f64) -> Result<i32, String> {
    let r = d.round();
    if r >= f64::from(i32::MIN) && r <= f64::from(i32::MAX) {
        Ok(r as i32)
    } else {
        Err(format!("Cannot cast {} to integer due to overflow", r))
    }
}

/// Raises an integer to a power by repeated multiplication.
fn int_pow(base: i32, exp: u32) -> Option<i32> {
    match base {
        0 => return Some(if exp == 0 { 1 } else { 0 }),
        1 => return Some(1),
        -1 => return Some(if exp % 2 == 0 { 1 } else { -1 }),
        _ => (),
    }
    if exp > 40 {
        return None;
    }
    let mut acc: i128 = 1;
    for _ in 0..exp {
        acc *= i128::from(base);
        if i32::try_from(acc).is_err() && acc != -i128::from(i32::MIN) {
            return None;
        }
    }
    i32::try_from(acc).ok()
}

pub fn binop(op: Bop, l: Val, r: Val) -> Result<Val, String> {
    use Bop::*;
    let wide = |v: i64, msg: &str| -> Result<Val, String> {
        i32::try_from(v).map(Val::I).map_err(|_| msg.to_owned())
    };
    Ok(match (l, r) {
        (Val::I(a), Val::I(b)) => {
            let (wa, wb) = (i64::from(a), i64::from(b));
            match op {
                Add => wide(wa + wb, "Integer overflow")?,
                Sub => wide(wa - wb, "Integer underflow")?,
                Mul => wide(wa * wb, "Integer overflow")?,
                Div => {
                    if b == 0 {
                        return Err("Division by zero".to_owned());
                    }
                    wide(wa / wb, "Integer underflow")?
                }
                Mod => {
                    if b == 0 {
                        return Err("Modulo by zero".to_owned());
                    }
                    if a == i32::MIN && b == -1 {
                        return Err("Integer underflow".to_owned());
                    }
                    wide(wa % wb, "Integer underflow")?
                }
                Pow => {
                    if b < 0 {
                        return Err(format!("Exponent {} cannot be negative", b));
                    }
                    match int_pow(a, b as u32) {
                        Some(v) => Val::I(v),
                        None => return Err("Integer overflow".to_owned()),
                    }
                }
                Shl => {
                    if b < 0 {
                        return Err(format!("Number of bits to << ({}) must be positive", b));
                    }
                    if b >= 32 {
                        Val::I(0)
                    } else {
                        Val::I(((u64::from(a as u32) << b) & 0xffff_ffff) as u32 as i32)
                    }
                }
                Shr => {
                    if b < 0 {
                        return Err(format!("Number of bits to >> ({}) must be positive", b));
                    }
                    let n = b.min(63);
                    Val::I((wa >> n) as i32)
                }
                And => Val::I(a & b),
                Or => Val::I(a | b),
                Xor => Val::I(a ^ b),
                Eq => Val::B(a == b),
                Ne => Val::B(a != b),
                Lt => Val::B(a < b),
                Le => Val::B(a <= b),
                Gt => Val::B(a > b),
                Ge => Val::B(a >= b),
            }
        }
        (Val::D(a), Val::D(b)) => match op {
            Add => Val::D(a + b),
            Sub => Val::D(a - b),
            Mul => Val::D(a * b),
            Div => Val::D(a / b),
            Mod => Val::D(a % b),
            Pow => Val::D(a.powf(b)),
            Eq => Val::B(a == b),
            Ne => Val::B(a != b),
            Lt => Val::B(a < b),
            Le => Val::B(a <= b),
            Gt => Val::B(a > b),
            Ge => Val::B(a >= b),
            _ => panic!("bad double op"),
        },
        (Val::T(a), Val::T(b)) => match op {
            Add => Val::T(format!("{}{}", a, b).into()),
            Eq => Val::B(a.as_bytes() == b.as_bytes()),
            Ne => Val::B(a.as_bytes() != b.as_bytes()),
            Lt => Val::B(a.as_bytes() < b.as_bytes()),
            Le => Val::B(a.as_bytes() <= b.as_bytes()),
            Gt => Val::B(a.as_bytes() > b.as_bytes()),
            Ge => Val::B(a.as_bytes() >= b.as_bytes()),
            _ => panic!("bad text op"),
        },
        (Val::B(a), Val::B(b)) => match op {
            Eq => Val::B(a == b),
            Ne | Xor => Val::B(a != b),
            And => Val::B(a && b),
            Or => Val::B(a || b),
            _ => panic!("bad bool op"),
        },
        (l, r) => panic!("mismatched operands {:?} {:?}", l, r),
    })
}

impl Interp {
    pub fn new(budget: u64, max_stack: usize) -> Self {
        Interp {
            globals: vec![],
            frames: vec![vec![]],
            gosubs: vec![vec![]],
            handler: Handler::None,
            out: vec![],
            ticks: 0,
            last_err: None,
            budget,
            nstack: 0,
            max_stack,
            steps: 0,
            errors_raised: 0,
            overflows: 0,
            max_depth: 0,
            calls: 0,
            casts: 0,
            handled: 0,
            tainted: vec![],
            forget_failed: false,
            busy: vec![],
            upcalls: 0,
            watch: None,
            watch_nested: false,
            snap: None,
        }
    }

    pub fn reset_ticks(&mut self) {
        self.ticks = 0;
    }

    pub fn add_budget(&mut self, n: u64) {
        self.budget += n;
    }

    fn slot(&mut self, v: VRef) -> &mut Slot {
        let vec = if v.global { &mut self.globals } else { self.frames.last_mut().unwrap() };
        if vec.len() <= v.idx {
            vec.resize(v.idx + 1, Slot::Uninit);
        }
        &mut vec[v.idx]
    }

    pub fn global(&self, idx: usize) -> Option<&Slot> {
        self.globals.get(idx)
    }

    fn eval(&mut self, rs: &Resolver, e: &RE) -> IRes<Val> {
        match e {
            RE::Const(v) => Ok(v.clone()),
            RE::Var(v) => match self.slot(*v) {
                Slot::Val(v) => Ok(v.clone()),
                _ => Err(Abort::Domain("uninitialized variable")),
            },
            RE::Arr(v, subs, pos) => {
                let mut s = vec![];
                for x in subs {
                    match self.eval(rs, x)? {
                        Val::I(i) => s.push(i),
                        _ => panic!("bad subscript"),
                    }
                }
                match self.slot(*v) {
                    Slot::Arr(a) => match a.index(&s) {
                        Ok(i) => Ok(a.vals[i].clone()),
                        Err(m) => Err(Abort::Err(*pos, m)),
                    },
                    _ => Err(Abort::Domain("uninitialized array")),
                }
            }
            RE::Call(f, args, pos) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(rs, a)?);
                }
                self.invoke(rs, *f, v, *pos)
            }
            RE::Up(up, args, pos) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(rs, a)?);
                }
                self.upcall(up, v, *pos)
            }
            RE::Neg(x, pos) => match self.eval(rs, x)? {
                Val::I(i32::MIN) => Err(Abort::Err(*pos, "Integer overflow".to_owned())),
                Val::I(i) => Ok(Val::I(-i)),
                Val::D(d) => Ok(Val::D(-d)),
                _ => panic!("bad negate"),
            },
            RE::Not(x) => match self.eval(rs, x)? {
                Val::I(i) => Ok(Val::I(!i)),
                Val::B(b) => Ok(Val::B(!b)),
                _ => panic!("bad not"),
            },
            RE::Bin(op, l, r, pos) => {
                let l = self.eval(rs, l)?;
                let r = self.eval(rs, r)?;
                match binop(*op, l, r) {
                    // Strings can grow exponentially in loops.
                    Ok(Val::T(s)) if s.len() > 4000 => Err(Abort::Budget),
                    Ok(v) => Ok(v),
                    Err(m) => Err(Abort::Err(*pos, m)),
                }
            }
            RE::ToD(x) => match self.eval(rs, x)? {
                Val::I(i) => {
                    self.casts += 1;
                    Ok(Val::D(f64::from(i)))
                }
                _ => panic!("bad cast"),
            },
            RE::ToI(x, pos) => match self.eval(rs, x)? {
                Val::D(d) => {
                    self.casts += 1;
                    double_to_int(d).map(Val::I).map_err(|m| Abort::Err(*pos, m))
                }
                _ => panic!("bad cast"),
            },
        }
    }

    /// Accounts for an upcall whose arguments are ready.
    fn at_upcall(&mut self) {
        if !self.watch_nested || self.frames.len() > 1 {
            match self.watch {
                Some(0) => {
                    self.watch = None;
                    let mut skip = self.busy.clone();
                    skip.extend(self.tainted.iter().copied());
                    self.snap = Some(Snap {
                        upcalls: self.upcalls,
                        depth: self.frames.len(),
                        globals: self.globals.clone(),
                        main: self.frames[0].clone(),
                        skip,
                    });
                }
                Some(n) => self.watch = Some(n - 1),
                None => (),
            }
        }
        self.upcalls += 1;
    }

    fn upcall(&mut self, up: &Up, args: Vec<Val>, pos: Pos) -> IRes<Val> {
        self.at_upcall();
        Ok(match (up, args.as_slice()) {
            (Up::Tick, []) => {
                self.ticks = self.ticks.wrapping_add(1);
                Val::I(self.ticks)
            }
            (Up::Mix, [a, b, c, d]) => {
                let s = format!("{}|{}|{}|{}", a.show(), b.show(), c.show(), d.show());
                if s.len() > 4000 {
                    return Err(Abort::Budget);
                }
                Val::T(s.into())
            }
            (Up::Total, v) => {
                let mut t = 0i32;
                for x in v {
                    if let Val::I(i) = x {
                        t = t.wrapping_add(*i);
                    }
                }
                Val::I(t)
            }
            (Up::Logi, [Val::I(i)]) => {
                self.out.push(format!("log {}", i));
                Val::I(*i)
            }
            (Up::Faili, [Val::I(i)]) => {
                if *i < 0 {
                    return Err(Abort::Err(pos, format!("Failed with {}", i)));
                }
                Val::I(*i)
            }
            (Up::LastErr, []) => Val::T(
                match &self.last_err {
                    Some((p, m)) => format!("{}:{}: {}", p.0, p.1, m),
                    None => "none".to_owned(),
                }
                .into(),
            ),
            (u, a) => panic!("bad upcall {:?} {:?}", u, a),
        })
    }

    fn push_stack(&mut self, pos: Pos) -> IRes<()> {
        if self.nstack >= self.max_stack {
            self.overflows += 1;
            return Err(Abort::Err(pos, "Out of call stack space".to_owned()));
        }
        self.nstack += 1;
        Ok(())
    }

    fn invoke(&mut self, rs: &Resolver, f: usize, args: Vec<Val>, pos: Pos) -> IRes<Val> {
        self.push_stack(pos)?;
        self.calls += 1;
        let info = &rs.fns[f];
        let mut frame = vec![Slot::Uninit; info.nslots];
        let mut i = 0;
        if let Some(t) = info.def.ret() {
            frame[0] = Slot::Val(t.default());
            i = 1;
        }
        for a in args {
            frame[i] = Slot::Val(a);
            i += 1;
        }
        self.frames.push(frame);
        self.gosubs.push(vec![]);
        self.max_depth = self.max_depth.max(self.frames.len());
        let r = self.run(rs, info.addr.expect("function must be defined"));
        let frame = self.frames.pop().unwrap();
        let pending = self.gosubs.pop().unwrap();
        self.nstack -= 1 + pending.len();
        match r {
            Ok(()) => {
                if !pending.is_empty() {
                    return Err(Abort::Domain("callable left with pending GOSUBs"));
                }
                Ok(match frame.into_iter().next() {
                    Some(Slot::Val(v)) => v,
                    _ if info.def.ret().is_some() => {
                        return Err(Abort::Domain("result of failed assignment"));
                    }
                    _ => Val::I(0),
                })
            }
            Err(e) => Err(e),
        }
    }

    /// Runs until the current callable returns or the program finishes (via `Abort`).
    fn run(&mut self, rs: &Resolver, start: usize) -> IRes<()> {
        let depth = self.frames.len();
        let mut pc = start;
        loop {
            self.steps += 1;
            if self.steps > self.budget {
                return Err(Abort::Budget);
            }
            let at = pc;
            match self.step(rs, &mut pc) {
                Ok(true) => return Ok(()),
                Ok(false) => (),
                Err(Abort::Err(pos, msg)) => {
                    self.errors_raised += 1;
                    self.last_err = Some((pos, msg.clone()));
                    match self.handler {
                        Handler::None | Handler::Jump { active: true, .. } => {
                            return Err(Abort::Err(pos, msg));
                        }
                        Handler::ResumeNext => {
                            self.handled += 1;
                            pc = at + 1;
                            while !rs.code[pc].start && pc + 1 < rs.code.len() {
                                pc += 1;
                            }
                        }
                        Handler::Jump { to, depth: d, .. } => {
                            self.handled += 1;
                            self.handler = Handler::Jump { to, active: true, depth: d };
                            if d > depth {
                                return Err(Abort::Domain("handler in finished callable"));
                            }
                            if d == depth {
                                pc = to;
                            } else {
                                return Err(Abort::Handler(to));
                            }
                        }
                    }
                }
                Err(Abort::Handler(to)) => {
                    let Handler::Jump { depth: d, .. } = self.handler else { panic!("handler") };
                    if d == depth {
                        pc = to;
                    } else {
                        return Err(Abort::Handler(to));
                    }
                }
                Err(e) => return Err(e),
            }
        }
    }

    fn ints(&mut self, rs: &Resolver, es: &[RE]) -> IRes<Vec<i32>> {
        let mut s = vec![];
        for x in es {
            match self.eval(rs, x)? {
                Val::I(i) => s.push(i),
                _ => panic!("bad int"),
            }
        }
        Ok(s)
    }

    /// Executes one operation; returns true if the current callable or the program is done.
    fn step(&mut self, rs: &Resolver, pc: &mut usize) -> IRes<bool> {
        let op = &rs.code[*pc].op;
        let mut next = *pc + 1;
        match op {
            Op::Nop => (),
            Op::Eof => {
                *pc = next;
                return Ok(true);
            }
            Op::Assign(v, e) => {
                let mark = self.busy.len();
                if v.global || self.frames.len() == 1 {
                    self.busy.push(*v);
                }
                let x = self.eval(rs, e);
                self.busy.truncate(mark);
                let x = match x {
                    Ok(x) => x,
                    Err(e) => {
                        // The contents of the variable are now unspecified.
                        self.tainted.push(*v);
                        if self.forget_failed {
                            *self.slot(*v) = Slot::Uninit;
                        }
                        return Err(e);
                    }
                };
                *self.slot(*v) = Slot::Val(x);
            }
            Op::AssignArr(v, subs, e, pos) => {
                let x = self.eval(rs, e)?;
                let s = self.ints(rs, subs)?;
                match self.slot(*v) {
                    Slot::Arr(a) => match a.index(&s) {
                        Ok(i) => a.vals[i] = x,
                        Err(m) => return Err(Abort::Err(*pos, m)),
                    },
                    _ => return Err(Abort::Domain("uninitialized array")),
                }
            }
            Op::Dim(v, ty) => *self.slot(*v) = Slot::Val(ty.default()),
            Op::DimArr(v, dims, ty, pos) => {
                let d = self.ints(rs, dims)?;
                for (i, x) in d.iter().enumerate() {
                    if *x <= 0 {
                        let _ = i;
                        return Err(Abort::Err(
                            *pos,
                            format!("Dimension {} must be positive", i),
                        ));
                    }
                }
                let total: i64 = d.iter().map(|x| i64::from(*x)).product();
                if total > 1_000_000 {
                    return Err(Abort::Domain("array too large"));
                }
                *self.slot(*v) = Slot::Arr(Arr {
                    dims: d.iter().map(|x| *x as usize).collect(),
                    vals: vec![ty.default(); total as usize],
                });
            }
            Op::Out(args) => {
                let mut s = String::new();
                let n = args.len();
                for (i, (e, sep)) in args.iter().enumerate() {
                    if let Some(e) = e {
                        let v = self.eval(rs, e)?;
                        s.push_str(&v.show());
                    }
                    if i + 1 < n {
                        s.push_str(match sep {
                            OutSep::Short => " ; ",
                            OutSep::Long => " , ",
                        });
                    }
                }
                self.at_upcall();
                self.out.push(s);
            }
            Op::SetRef(v, e, ty, pos) => {
                let x = self.eval(rs, e)?;
                self.at_upcall();
                if x.ty() != *ty {
                    return Err(Abort::Err(*pos, "Types differ".to_owned()));
                }
                *self.slot(*v) = Slot::Val(x);
            }
            Op::Jz(e, to) => match self.eval(rs, e)? {
                Val::B(false) => next = *to,
                Val::B(true) => (),
                _ => panic!("bad guard"),
            },
            Op::Jnz(e, to) => match self.eval(rs, e)? {
                Val::B(true) => next = *to,
                Val::B(false) => (),
                _ => panic!("bad guard"),
            },
            Op::Jmp(to) => next = *to,
            Op::Gosub(to, pos) => {
                // Reported at the target, which follows the keyword in the canonical layout.
                self.push_stack((pos.0, pos.1 + 6))?;
                self.gosubs.last_mut().unwrap().push(next);
                next = *to;
            }
            Op::Return(pos) => match self.gosubs.last_mut().unwrap().pop() {
                Some(a) => {
                    self.nstack -= 1;
                    next = a;
                }
                None => {
                    if self.frames.len() > 1 {
                        return Err(Abort::Domain("RETURN in callable"));
                    }
                    return Err(Abort::Err(
                        *pos,
                        "RETURN without GOSUB or FUNCTION call".to_owned(),
                    ));
                }
            },
            Op::CallSub(f, args, pos) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(rs, a)?);
                }
                self.invoke(rs, *f, v, *pos)?;
            }
            Op::Leave => {
                return Ok(true);
            }
            Op::End(e, pos) => {
                let code = match e {
                    None => 0,
                    Some(e) => match self.eval(rs, e)? {
                        Val::I(i) => i,
                        _ => panic!("bad end"),
                    },
                };
                if !(0..=127).contains(&code) {
                    return Err(Abort::Err(
                        *pos,
                        "Exit code must be in the 0..127 range".to_owned(),
                    ));
                }
                return Err(Abort::End(code));
            }
            Op::OnErr(mode, resume) => {
                self.handler = if *resume {
                    Handler::ResumeNext
                } else {
                    match mode {
                        Some(Some(to)) => {
                            Handler::Jump { to: *to, active: false, depth: self.frames.len() }
                        }
                        _ => Handler::None,
                    }
                };
            }
            Op::SetHidden(h, e) => {
                let x = self.eval(rs, e)?;
                *self.slot(VRef { global: false, idx: *h }) = Slot::Val(x);
            }
            Op::CaseNot(h, guards, to) => {
                let Slot::Val(test) = self.slot(VRef { global: false, idx: *h }).clone() else {
                    return Err(Abort::Domain("jump into SELECT"));
                };
                let mut hit = false;
                for (op, a, b) in guards {
                    let av = self.eval(rs, a)?;
                    let (t1, av) = promote(test.clone(), av);
                    match b {
                        None => {
                            if let Ok(Val::B(true)) = binop(*op, t1, av) {
                                hit = true;
                                break;
                            }
                        }
                        Some(b) => {
                            let lo = binop(Bop::Ge, t1, av);
                            let bv = self.eval(rs, b)?;
                            let (t2, bv) = promote(test.clone(), bv);
                            let hi = binop(Bop::Le, t2, bv);
                            if matches!((lo, hi), (Ok(Val::B(true)), Ok(Val::B(true)))) {
                                hit = true;
                                break;
                            }
                        }
                    }
                }
                if !hit {
                    next = *to;
                }
            }
        }
        *pc = next;
        Ok(false)
    }

    /// Runs a chunk from `start` with program-level state.
    pub fn exec(&mut self, rs: &Resolver, start: usize) -> RunResult {
        let r = self.run(rs, start);
        // Any abandoned callables are unwound.
        self.frames.truncate(1);
        self.gosubs.truncate(1);
        self.gosubs[0].clear();
        self.nstack = 0;
        match r {
            Ok(()) => Ok(Stop::Eof),
            Err(Abort::End(c)) => Ok(Stop::End(c)),
            Err(Abort::Err(p, m)) => Ok(Stop::Exc(p, m)),
            Err(Abort::Budget) => Err("budget"),
            Err(Abort::Domain(d)) => Err(d),
            Err(Abort::Handler(_)) => panic!("unresolved handler"),
        }
    }
}

fn promote(a: Val, b: Val) -> (Val, Val) {
    match (&a, &b) {
        (Val::I(x), Val::D(_)) => (Val::D(f64::from(*x)), b),
        (Val::D(_), Val::I(y)) => {
            let y = Val::D(f64::from(*y));
            (a, y)
        }
        _ => (a, b),
    }
}
