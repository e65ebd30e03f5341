//! Generator of well-formed EndBASIC programs for the reference model.
//!
//! Programs are correct by construction: every variable that is read is definitely assigned on all
//! paths that lead to the read, loops are bounded, and control transfers stay within the frame that
//! owns the label.

use crate::engine::Src;
use crate::lang::*;
use std::collections::HashSet;

/// How runtime errors are dealt with by the generated programs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrMode {
    /// Errors are rare and, if they happen, end the program.
    Plain,
    /// Errors are frequent and end the program.
    Risky,
    /// `ON ERROR RESUME NEXT` and `ON ERROR GOTO 0`.
    ResumeNext,
    /// `ON ERROR GOTO @handler`.
    Handler,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub control: bool,
    pub jumps: bool,
    pub callables: bool,
    pub arrays: bool,
    pub err: ErrMode,
    /// Failing assignments must not target variables that are read later.
    pub contain: bool,
    pub stmts: usize,
    pub expr_depth: usize,
    pub end_stmt: bool,
    pub data: bool,
    /// Whether `LASTERR` may be used within expressions.
    pub lasterr: bool,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub ty: Ty,
    pub ndims: usize,
    /// Sizes of the dimensions, if known.
    dims: Vec<i32>,
    pub global: bool,
    locked: bool,
    depth: usize,
}

#[derive(Clone, Debug)]
struct Fun {
    def: CallableDef,
    /// The first parameter bounds the recursion.
    recursive: bool,
    cost: u32,
}

#[derive(Default)]
struct Frame {
    vars: Vec<Var>,
    assigned: HashSet<String>,
    /// Variables that are assigned at the beginning of the frame.
    stable: HashSet<String>,
    /// Labels that have been jumped to but not yet placed, with their state and block depth.
    pending: Vec<(String, HashSet<String>, usize)>,
    loops: Vec<(ExitKind, Option<HashSet<String>>)>,
    fun: Option<Fun>,
    gosubs: Vec<String>,
    block: usize,
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    frame: Frame,
    globals: Vec<Var>,
    funs: Vec<Fun>,
    seq: usize,
    fuel: i64,
    safe: bool,
    loop_mult: u32,
    pub used: Used,
    handler: Option<(String, String)>,
    in_gosub: Option<usize>,
    no_calls: bool,
}

#[derive(Default, Debug, Clone)]
pub struct Used {
    pub loops: usize,
    pub ifs: usize,
    pub selects: usize,
    pub jumps: usize,
    pub gosubs: usize,
    pub calls: usize,
    pub defs: usize,
    pub arrays: usize,
    pub exits: usize,
    pub handlers: usize,
    pub recursion: usize,
    pub stmts: usize,
    pub setrefs: usize,
}

const INTS: [i32; 22] = [
    0,
    1,
    2,
    3,
    4,
    5,
    7,
    10,
    31,
    32,
    33,
    100,
    255,
    256,
    32767,
    65535,
    65536,
    46341,
    i32::MAX,
    -1,
    i32::MIN,
    i32::MAX - 1,
];
const DBLS: [&str; 14] = [
    "0.0",
    "1.0",
    "0.5",
    "1.5",
    "2.5",
    "3.25",
    "0.1",
    "100.75",
    "2147483647.0",
    "2147483647.5",
    "2147483648.0",
    "4294967296.25",
    "123456789012345678.0",
    "0.0000001",
];
const TXTS: [&str; 10] =
    ["", "a", "b", "abc", "A", "hello world", "q\"uo\\te", "ñ€😀", "  sp ", "10"];

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> Self {
        Gen {
            s,
            fuel: cfg.stmts as i64,
            cfg,
            frame: Frame::default(),
            globals: vec![],
            funs: vec![],
            seq: 0,
            safe: false,
            loop_mult: 1,
            used: Used::default(),
            handler: None,
            in_gosub: None,
            no_calls: false,
        }
    }

    pub fn fresh(&mut self, prefix: &str) -> String {
        self.seq += 1;
        const STYLES: [&str; 5] = ["", "_x", "Val", "é", "Z9"];
        let style = self.s.weighted(&[12, 2, 2, 1, 1]);
        format!("{}{}{}", prefix, self.seq, STYLES[style])
    }

    fn ty(&mut self) -> Ty {
        Ty::ALL[self.s.weighted(&[5, 3, 2, 3])]
    }

    // ---- Expressions

    fn readable(&self, ty: Ty, ndims: bool) -> Vec<Var> {
        let mut v: Vec<Var> = self
            .frame
            .vars
            .iter()
            .filter(|v| {
                v.ty == ty && (v.ndims > 0) == ndims && self.frame.assigned.contains(&v.name)
            })
            .cloned()
            .collect();
        v.extend(self.globals.iter().filter(|v| v.ty == ty && (v.ndims > 0) == ndims).cloned());
        v
    }

    fn name_of(&mut self, v: &Var) -> Name {
        if self.s.chance(1, 5) {
            Name::with(v.name.clone(), Some(v.ty))
        } else {
            Name::new(v.name.clone())
        }
    }

    pub fn literal(&mut self, ty: Ty) -> Ex {
        match ty {
            Ty::B => Ex::bool(self.s.chance(1, 2)),
            Ty::I => {
                let w = self.s.weighted(&[10, 4, if self.safe { 0 } else { 1 }]);
                match w {
                    0 => Ex::int(self.s.range(0, 12) as i32),
                    1 => {
                        let big = if self.risky() { INTS.len() } else { 14 };
                        Ex::int(INTS[self.s.idx(big)])
                    }
                    _ => Ex::int(self.s.u64() as u32 as i32),
                }
            }
            Ty::D => {
                let w = self.s.weighted(&[5, 3, 2]);
                match w {
                    0 => Ex::new(Ek::Dbl(DBLS[self.s.idx(8)].to_owned())),
                    1 => Ex::new(Ek::Dbl(format!(
                        "{}.{}",
                        self.s.below(1000),
                        self.s.below(1000)
                    ))),
                    _ => Ex::new(Ek::Dbl(DBLS[self.s.idx(DBLS.len())].to_owned())),
                }
            }
            Ty::T => {
                if self.s.chance(1, 3) {
                    let n = self.s.below(5);
                    let mut t = String::new();
                    for _ in 0..n {
                        t.push(*self.s.pick(&['x', 'Y', '0', ' ', '"', '\\', 'ß', '😀', '\'', ':']));
                    }
                    Ex::txt(&t)
                } else {
                    Ex::txt(TXTS[self.s.idx(TXTS.len())])
                }
            }
        }
    }

    fn risky(&self) -> bool {
        !self.safe && self.cfg.err != ErrMode::Plain
    }

    /// Generates an expression of the exact type `ty`.
    pub fn expr(&mut self, ty: Ty, depth: usize) -> Ex {
        let mut e = self.expr0(ty, depth);
        if self.s.chance(1, 12) {
            e.parens = true;
        }
        e
    }

    fn leaf(&mut self, ty: Ty) -> Ex {
        let vars = self.readable(ty, false);
        if !vars.is_empty() && self.s.chance(2, 3) {
            let v = vars[self.s.idx(vars.len())].clone();
            let n = self.name_of(&v);
            return Ex::new(Ek::Var(n));
        }
        let arrs = self.readable(ty, true);
        if !arrs.is_empty() && self.s.chance(1, 2) && (!self.safe) {
            let v = arrs[self.s.idx(arrs.len())].clone();
            return self.array_ref(&v, 1);
        }
        self.literal(ty)
    }

    fn subscripts(&mut self, v: &Var, depth: usize) -> Vec<Ex> {
        let risky = self.risky();
        let mut subs = vec![];
        for i in 0..v.ndims {
            let d = v.dims[i];
            let k = self.s.weighted(&[6, 3, 2, if risky { 2 } else { 0 }]);
            subs.push(match k {
                0 => Ex::int(self.s.range(0, i64::from(d - 1)) as i32),
                1 => {
                    // Reduce any integer to a valid subscript.
                    let e = self.expr(Ty::I, depth.saturating_sub(1));
                    Ex::bin(
                        Bop::Mod,
                        Ex::bin(Bop::And, e, Ex::int(i32::MAX)),
                        Ex::int(d),
                    )
                }
                2 => {
                    // A double that gets rounded.
                    let n = self.s.range(0, i64::from(d - 1));
                    let f = self.s.pick(&["0", "25", "49"]);
                    Ex::new(Ek::Dbl(format!("{}.{}", n, f)))
                }
                _ => {
                    if self.s.chance(1, 2) {
                        let off = self.s.range(-2, 3) as i32;
                        if off < 0 {
                            Ex::neg(Ex::int(-off))
                        } else {
                            Ex::int(d + off - 1)
                        }
                    } else {
                        self.expr(Ty::I, depth.saturating_sub(1))
                    }
                }
            });
        }
        subs
    }

    fn array_ref(&mut self, v: &Var, depth: usize) -> Ex {
        let subs = self.subscripts(v, depth);
        let n = self.name_of(v);
        Ex::new(Ek::Arr(n, subs))
    }

    /// Generates an expression that converts to the type `ty` when used in its context.
    pub fn expr_conv(&mut self, ty: Ty, depth: usize) -> Ex {
        if ty == Ty::D && self.s.chance(1, 4) {
            return self.expr(Ty::I, depth);
        }
        if ty == Ty::I && !self.safe && self.s.chance(1, 6) {
            return self.expr(Ty::D, depth);
        }
        self.expr(ty, depth)
    }

    fn expr0(&mut self, ty: Ty, depth: usize) -> Ex {
        if depth == 0 || self.s.chance(1, 4) {
            return self.leaf(ty);
        }
        let d = depth - 1;
        if !self.no_calls && self.s.chance(1, 7) {
            if let Some(e) = self.call_expr(ty, d) {
                return e;
            }
        }
        match ty {
            Ty::I => {
                let k = self.s.weighted(&[
                    3,                                  // leaf
                    if self.safe { 0 } else { 8 },      // add/sub/mul
                    if self.safe { 0 } else { 3 },      // div/mod
                    4,                                  // bit ops
                    if self.safe { 0 } else { 2 },      // shifts
                    if self.safe { 0 } else { 1 },      // pow
                    if self.safe { 0 } else { 2 },      // neg
                    2,                                  // not
                    2,                                  // tick and friends
                    if self.risky() { 3 } else { 0 },   // things that fail
                ]);
                match k {
                    0 => self.leaf(ty),
                    1 => {
                        let op = *self.s.pick(&[Bop::Add, Bop::Sub, Bop::Mul]);
                        Ex::bin(op, self.expr(ty, d), self.expr(ty, d))
                    }
                    2 => {
                        let op = *self.s.pick(&[Bop::Div, Bop::Mod]);
                        let l = self.expr(ty, d);
                        let r = if self.risky() && self.s.chance(1, 3) {
                            self.expr(ty, d)
                        } else {
                            Ex::int(self.s.range(1, 9) as i32)
                        };
                        Ex::bin(op, l, r)
                    }
                    3 => {
                        let op = *self.s.pick(&[Bop::And, Bop::Or, Bop::Xor]);
                        Ex::bin(op, self.expr(ty, d), self.expr(ty, d))
                    }
                    4 => {
                        let op = *self.s.pick(&[Bop::Shl, Bop::Shr]);
                        let l = self.expr(ty, d);
                        let r = if self.risky() && self.s.chance(1, 3) {
                            self.expr(ty, d)
                        } else {
                            Ex::int(self.s.range(0, 34) as i32)
                        };
                        Ex::bin(op, l, r)
                    }
                    5 => {
                        let l = self.expr(ty, d);
                        let r = if self.risky() && self.s.chance(1, 3) {
                            self.expr(ty, d)
                        } else {
                            Ex::int(self.s.range(0, 4) as i32)
                        };
                        Ex::bin(Bop::Pow, l, r)
                    }
                    6 => Ex::neg(self.expr(ty, d)),
                    7 => Ex::not(self.expr(ty, d)),
                    8 => match self.s.below(3) {
                        0 => Ex::new(Ek::Call(Name::new("TICK"), vec![])),
                        1 => {
                            let e = self.expr_conv(Ty::I, d);
                            Ex::new(Ek::Call(Name::new("LOGI"), vec![e]))
                        }
                        _ => {
                            let n = self.s.range(1, 4);
                            let v = (0..n).map(|_| self.expr_conv(Ty::I, d.min(1))).collect();
                            Ex::new(Ek::Call(Name::new("TOTAL"), v))
                        }
                    },
                    _ => {
                        let e = self.expr(Ty::I, d);
                        let e = if self.s.chance(1, 2) { Ex::neg(e) } else { e };
                        Ex::new(Ek::Call(Name::new("FAILI"), vec![e]))
                    }
                }
            }
            Ty::D => {
                let k = self.s.weighted(&[3, 8, 2, 2]);
                match k {
                    0 => self.leaf(ty),
                    1 => {
                        let op = *self.s.pick(&[Bop::Add, Bop::Sub, Bop::Mul, Bop::Div]);
                        let (l, r) = self.mixed(d);
                        Ex::bin(op, l, r)
                    }
                    2 => {
                        let op = *self.s.pick(&[Bop::Mod, Bop::Pow]);
                        let (l, r) = self.mixed(d);
                        Ex::bin(op, l, r)
                    }
                    _ => Ex::neg(self.expr(ty, d)),
                }
            }
            Ty::T => {
                let k = self.s.weighted(&[3, 6, 2, if self.cfg.err == ErrMode::Plain || !self.cfg.lasterr { 0 } else { 2 }]);
                match k {
                    0 => self.leaf(ty),
                    1 => Ex::bin(Bop::Add, self.expr(ty, d), self.expr(ty, d)),
                    2 => {
                        let a = self.expr_conv(Ty::I, d.min(1));
                        let b = self.expr_conv(Ty::D, d.min(1));
                        let c = self.expr(Ty::B, d.min(1));
                        let e = self.expr(Ty::T, d.min(1));
                        Ex::new(Ek::Call(Name::new("MIX"), vec![a, b, c, e]))
                    }
                    _ => Ex::new(Ek::Call(Name::new("LASTERR"), vec![])),
                }
            }
            Ty::B => {
                let k = self.s.weighted(&[2, 8, 2, 4, 2]);
                match k {
                    0 => self.leaf(ty),
                    1 => {
                        let op = *self.s.pick(&[
                            Bop::Lt,
                            Bop::Le,
                            Bop::Gt,
                            Bop::Ge,
                            Bop::Eq,
                            Bop::Ne,
                        ]);
                        match self.s.below(4) {
                            0 | 1 => Ex::bin(op, self.expr(Ty::I, d), self.expr(Ty::I, d)),
                            2 => {
                                let (l, r) = self.mixed(d);
                                Ex::bin(op, l, r)
                            }
                            _ => Ex::bin(op, self.expr(Ty::T, d), self.expr(Ty::T, d)),
                        }
                    }
                    2 => Ex::not(self.expr(ty, d)),
                    3 => {
                        let op = *self.s.pick(&[Bop::And, Bop::Or, Bop::Xor]);
                        Ex::bin(op, self.expr(ty, d), self.expr(ty, d))
                    }
                    _ => {
                        let op = *self.s.pick(&[Bop::Eq, Bop::Ne]);
                        Ex::bin(op, self.expr(ty, d), self.expr(ty, d))
                    }
                }
            }
        }
    }

    /// Two operands of which at least one is a double.
    fn mixed(&mut self, d: usize) -> (Ex, Ex) {
        match self.s.below(4) {
            0 => (self.expr(Ty::D, d), self.expr(Ty::I, d)),
            1 => (self.expr(Ty::I, d), self.expr(Ty::D, d)),
            _ => (self.expr(Ty::D, d), self.expr(Ty::D, d)),
        }
    }

    fn callable_ok(&self, f: &Fun) -> bool {
        f.cost.saturating_mul(self.loop_mult) < 4000
    }

    fn call_args(&mut self, f: &Fun, d: usize) -> Vec<Ex> {
        let mut args = vec![];
        for (i, p) in f.def.params.iter().enumerate() {
            if i == 0 && f.recursive {
                args.push(Ex::int(self.s.range(0, 4) as i32));
            } else {
                args.push(self.expr_conv(p.name.ann.unwrap_or(Ty::I), d));
            }
        }
        args
    }

    fn call_expr(&mut self, ty: Ty, d: usize) -> Option<Ex> {
        if self.safe && self.cfg.err == ErrMode::Handler {
            return None;
        }
        let cands: Vec<Fun> = self
            .funs
            .iter()
            .filter(|f| f.def.ret() == Some(ty) && self.callable_ok(f))
            .cloned()
            .collect();
        if cands.is_empty() {
            return None;
        }
        let f = cands[self.s.idx(cands.len())].clone();
        if let Some(fun) = &mut self.frame.fun {
            fun.cost = fun.cost.saturating_add(f.cost.saturating_mul(self.loop_mult));
        }
        self.used.calls += 1;
        let args = self.call_args(&f, d.min(1));
        let n = if self.s.chance(1, 4) {
            Name::with(f.def.name.s.clone(), f.def.ret())
        } else {
            Name::new(f.def.name.s.clone())
        };
        Some(Ex::new(Ek::Call(n, args)))
    }

    // ---- Statements

    fn with_safe<T>(&mut self, safe: bool, f: impl FnOnce(&mut Self) -> T) -> T {
        let old = self.safe;
        self.safe = old || safe;
        let r = f(self);
        self.safe = old;
        r
    }

    fn define(&mut self, name: String, ty: Ty, ndims: usize, dims: Vec<i32>) -> Var {
        let v = Var {
            name: name.clone(),
            ty,
            ndims,
            dims,
            global: false,
            locked: false,
            depth: self.frame.block,
        };
        self.frame.vars.push(v.clone());
        self.frame.assigned.insert(name);
        v
    }

    fn st(&mut self, k: Sk) -> St {
        self.used.stmts += 1;
        St::new(k)
    }

    fn new_var(&mut self) -> St {
        let ty = self.ty();
        let name = self.fresh("v");
        match self.s.below(3) {
            0 => {
                // Take the type from the expression.
                let contain = self.cfg.contain;
                let e = self.with_safe(contain, |g| g.expr(ty, g.cfg.expr_depth));
                self.define(name.clone(), ty, 0, vec![]);
                self.st(Sk::Assign(Name::new(name), e))
            }
            1 => {
                // Take the type from the annotation.
                let contain = self.cfg.contain;
                let e = self.with_safe(contain, |g| g.expr_conv(ty, g.cfg.expr_depth));
                self.define(name.clone(), ty, 0, vec![]);
                self.st(Sk::Assign(Name::with(name, Some(ty)), e))
            }
            _ => {
                self.define(name.clone(), ty, 0, vec![]);
                let t = if ty == Ty::I && self.s.chance(1, 2) { None } else { Some(ty) };
                self.st(Sk::Dim { name, shared: false, ty: t })
            }
        }
    }

    fn new_array(&mut self, shared: bool) -> St {
        let ty = self.ty();
        let name = self.fresh("a");
        let nd = self.s.range(1, 3) as usize;
        let dims: Vec<i32> = (0..nd).map(|_| self.s.range(1, 4) as i32).collect();
        let es = dims
            .iter()
            .map(|d| {
                if self.s.chance(1, 5) {
                    Ex::new(Ek::Dbl(format!("{}.2", d)))
                } else if self.s.chance(1, 5) {
                    Ex::bin(Bop::Sub, Ex::int(d + 1), Ex::int(1))
                } else {
                    Ex::int(*d)
                }
            })
            .collect();
        self.used.arrays += 1;
        if shared {
            self.globals.push(Var {
                name: name.clone(),
                ty,
                ndims: nd,
                dims,
                global: true,
                locked: false,
                depth: 0,
            });
        } else {
            self.define(name.clone(), ty, nd, dims);
        }
        let t = if ty == Ty::I && self.s.chance(1, 2) { None } else { Some(ty) };
        self.st(Sk::DimArr { name, shared, dims: es, ty: t })
    }

    fn assignable(&self) -> Vec<Var> {
        let mut v: Vec<Var> =
            self.frame.vars.iter().filter(|v| v.ndims == 0 && !v.locked).cloned().collect();
        v.extend(self.globals.iter().filter(|v| v.ndims == 0).cloned());
        if let Some(f) = &self.frame.fun {
            if let Some(t) = f.def.ret() {
                v.push(Var {
                    name: f.def.name.s.clone(),
                    ty: t,
                    ndims: 0,
                    dims: vec![],
                    global: false,
                    locked: false,
                    depth: 0,
                });
            }
        }
        v
    }

    fn assign(&mut self) -> St {
        let vars = self.assignable();
        if vars.is_empty() || self.s.chance(1, 4) {
            return self.new_var();
        }
        let v = vars[self.s.idx(vars.len())].clone();
        let contain = self.cfg.contain;
        let e = self.with_safe(contain, |g| g.expr_conv(v.ty, g.cfg.expr_depth));
        let n = self.name_of(&v);
        if !v.global {
            self.frame.assigned.insert(v.name.clone());
        }
        self.st(Sk::Assign(n, e))
    }

    fn assign_array(&mut self) -> Option<St> {
        let ty = self.ty();
        let arrs = self.readable(ty, true);
        if arrs.is_empty() {
            return None;
        }
        let v = arrs[self.s.idx(arrs.len())].clone();
        let e = self.expr_conv(v.ty, self.cfg.expr_depth.min(3));
        let subs = self.subscripts(&v, 2);
        let n = self.name_of(&v);
        Some(self.st(Sk::AssignArr(n, subs, e)))
    }

    pub fn out(&mut self) -> St {
        let n = self.s.range(1, 3) as usize;
        let mut args = vec![];
        for i in 0..n {
            let sep = if self.s.chance(1, 3) { OutSep::Long } else { OutSep::Short };
            if n > 1 && i + 1 < n && self.s.chance(1, 12) {
                args.push((None, sep));
            } else {
                let ty = self.ty();
                args.push((Some(self.expr(ty, self.cfg.expr_depth)), sep));
            }
        }
        self.st(Sk::Out(args))
    }

    fn setref(&mut self) -> Option<St> {
        let vars: Vec<Var> = self
            .assignable()
            .into_iter()
            .filter(|v| v.global || self.frame.assigned.contains(&v.name))
            .collect();
        if vars.is_empty() {
            return None;
        }
        let v = vars[self.s.idx(vars.len())].clone();
        let e = self.expr(v.ty, 2);
        self.used.setrefs += 1;
        let n = self.name_of(&v);
        Some(self.st(Sk::SetRef(n, e)))
    }

    /// A failing statement whose partial effects are not observable.
    fn junk(&mut self) -> St {
        match self.s.below(3) {
            0 => self.out(),
            1 => {
                let ty = self.ty();
                // Never registered, so never read.
                let name = self.fresh("junk");
                let e = self.expr_conv(ty, 3);
                self.st(Sk::Assign(Name::with(name, Some(ty)), e))
            }
            _ => {
                let e = self.expr(Ty::I, 2);
                let e = Ex::new(Ek::Call(
                    Name::new("FAILI"),
                    vec![if self.s.chance(2, 3) {
                        Ex::neg(Ex::bin(
                            Bop::Or,
                            Ex::bin(Bop::And, e, Ex::int(255)),
                            Ex::int(1),
                        ))
                    } else {
                        e
                    }],
                ));
                self.st(Sk::Out(vec![(Some(e), OutSep::Short)]))
            }
        }
    }

    fn enter_block(&mut self) {
        self.frame.block += 1;
    }

    /// Places labels pending at deeper levels and leaves the block.
    fn leave_block(&mut self, out: &mut Vec<St>) {
        // A label for a pending jump may be at the end of the block.
        self.maybe_label(out, 3);
        self.frame.block -= 1;
        let b = self.frame.block;
        for p in &mut self.frame.pending {
            p.2 = p.2.min(b);
        }
    }

    /// Maybe places a pending label here.
    fn maybe_label(&mut self, out: &mut Vec<St>, one_in: u64) {
        let b = self.frame.block;
        let mut i = 0;
        while i < self.frame.pending.len() {
            if self.frame.pending[i].2 == b && self.s.chance(1, one_in) {
                let (l, st, _) = self.frame.pending.remove(i);
                self.frame.assigned = self.frame.assigned.intersection(&st).cloned().collect();
                out.push(self.st(Sk::Label(l)));
            } else {
                i += 1;
            }
        }
    }

    fn flush_labels(&mut self, out: &mut Vec<St>) {
        while let Some((l, st, _)) = self.frame.pending.pop() {
            self.frame.assigned = self.frame.assigned.intersection(&st).cloned().collect();
            out.push(self.st(Sk::Label(l)));
        }
    }

    pub fn new_label(&mut self) -> String {
        if self.s.chance(1, 5) {
            self.seq += 1;
            format!("{}", 1000 + self.seq)
        } else {
            self.fresh("l")
        }
    }

    fn body(&mut self, max: i64) -> Vec<St> {
        let mut v = vec![];
        self.enter_block();
        let n = self.s.range(0, max);
        for _ in 0..n {
            if self.fuel <= 0 {
                break;
            }
            self.stmt(&mut v);
        }
        self.leave_block(&mut v);
        v
    }

    fn simple_stmt(&mut self) -> St {
        match self.s.below(3) {
            0 => self.out(),
            1 => {
                let vars: Vec<Var> = self
                    .assignable()
                    .into_iter()
                    .filter(|v| v.global || self.frame.assigned.contains(&v.name))
                    .collect();
                if vars.is_empty() {
                    return self.out();
                }
                let v = vars[self.s.idx(vars.len())].clone();
                let contain = self.cfg.contain;
                let e = self.with_safe(contain, |g| g.expr_conv(v.ty, 2));
                self.st(Sk::Assign(Name::new(v.name), e))
            }
            _ => self.forward_goto().unwrap_or_else(|| St::new(Sk::Out(vec![]))),
        }
    }

    fn forward_goto(&mut self) -> Option<St> {
        if !self.cfg.jumps || self.in_gosub.is_some() {
            return None;
        }
        let st = self.frame.assigned.clone();
        let b = self.frame.block;
        // Join an existing label or create a new one.
        let l = if !self.frame.pending.is_empty() && self.s.chance(1, 3) {
            let i = self.s.idx(self.frame.pending.len());
            let p = &mut self.frame.pending[i];
            p.1 = p.1.intersection(&st).cloned().collect();
            p.0.clone()
        } else {
            let l = self.new_label();
            let target = if b > 0 && self.s.chance(1, 3) { self.s.idx(b + 1) } else { b };
            self.frame.pending.push((l.clone(), st, target));
            l
        };
        self.used.jumps += 1;
        Some(self.st(Sk::Goto(l)))
    }

    fn guard(&mut self) -> Ex {
        self.expr(Ty::B, 3)
    }

    pub fn stmt(&mut self, out: &mut Vec<St>) {
        self.fuel -= 1;
        self.maybe_label(out, 4);
        let c = &self.cfg;
        let deep = self.frame.block >= 4;
        let ctl = if c.control && !deep { 1 } else { 0 };
        let w = [
            6,                                                          // 0 out
            8,                                                          // 1 assign
            if c.arrays { 4 } else { 0 },                               // 2 array assign
            if c.arrays && self.frame.block == 0 { 1 } else { 0 },      // 3 dim array
            1,                                                          // 4 setref
            4 * ctl,                                                    // 5 if
            2 * ctl,                                                    // 6 select
            3 * ctl,                                                    // 7 for
            2 * ctl,                                                    // 8 while
            3 * ctl,                                                    // 9 do
            if c.jumps { 2 } else { 0 },                                // 10 if goto
            if c.jumps { 1 } else { 0 },                                // 11 backward goto
            if c.jumps && self.in_gosub.is_none() { 2 } else { 0 },     // 12 gosub
            if c.callables { 4 } else { 0 },                            // 13 call sub
            2,                                                          // 14 exit
            match c.err {
                ErrMode::Plain => 0,
                ErrMode::Risky => 1,
                _ => 6,
            }, // 15 junk
            if matches!(c.err, ErrMode::ResumeNext | ErrMode::Handler) { 2 } else { 0 }, // 16 on error
            if c.end_stmt { 1 } else { 0 },                             // 17 conditional end
            if c.data { 2 } else { 0 },                                 // 18 data
        ];
        match self.s.weighted(&w) {
            0 => {
                let s = self.out();
                out.push(s);
            }
            1 => {
                let s = self.assign();
                out.push(s);
            }
            2 => {
                let s = match self.assign_array() {
                    Some(s) => s,
                    None => self.out(),
                };
                out.push(s);
            }
            3 => {
                let s = self.new_array(false);
                out.push(s);
            }
            4 => {
                let s = match self.setref() {
                    Some(s) => s,
                    None => self.assign(),
                };
                out.push(s);
            }
            5 => self.if_stmt(out),
            6 => self.select_stmt(out),
            7 => self.for_stmt(out),
            8 => self.while_stmt(out),
            9 => self.do_stmt(out),
            10 => {
                if self.in_gosub.is_some() {
                    let s = self.out();
                    out.push(s);
                    return;
                }
                let g = self.guard();
                if let Some(goto) = self.forward_goto() {
                    self.used.ifs += 1;
                    let s = self.st(Sk::If {
                        branches: vec![(g, vec![goto])],
                        other: None,
                        uniline: true,
                    });
                    out.push(s);
                }
            }
            11 => self.backward(out),
            12 => {
                let l = if !self.frame.gosubs.is_empty() && self.s.chance(1, 2) {
                    let i = self.s.idx(self.frame.gosubs.len());
                    self.frame.gosubs[i].clone()
                } else {
                    let l = self.new_label();
                    self.frame.gosubs.push(l.clone());
                    l
                };
                self.used.gosubs += 1;
                let s = self.st(Sk::Gosub(l));
                out.push(s);
            }
            13 => {
                let cands: Vec<Fun> = self
                    .funs
                    .iter()
                    .filter(|f| !f.def.is_fn && self.callable_ok(f))
                    .cloned()
                    .collect();
                if cands.is_empty() {
                    let s = self.out();
                    out.push(s);
                    return;
                }
                let f = cands[self.s.idx(cands.len())].clone();
                if let Some(fun) = &mut self.frame.fun {
                    fun.cost = fun.cost.saturating_add(f.cost.saturating_mul(self.loop_mult));
                }
                self.used.calls += 1;
                let args = self.call_args(&f, 2);
                let s = self.st(Sk::CallSub(f.def.name.s.clone(), args));
                out.push(s);
            }
            14 => self.exit_stmt(out),
            15 => {
                let s = self.junk();
                out.push(s);
            }
            16 => self.on_error(out),
            18 => {
                let n = self.s.range(1, 4);
                let vals = (0..n).map(|_| self.data_value()).collect();
                let s = self.st(Sk::Data(vals));
                out.push(s);
            }
            _ => {
                let code = match self.s.below(6) {
                    0 => None,
                    1..=2 => Some(Ex::int(self.s.range(0, 127) as i32)),
                    // Literals out of range are rejected by the compiler.
                    3 => Some(Ex::bin(Bop::Add, Ex::int(self.s.range(0, 200) as i32), Ex::int(0))),
                    4 => Some(Ex::bin(Bop::Sub, self.expr(Ty::I, 2), Ex::int(0))),
                    _ => Some(Ex::new(Ek::Dbl("3.6".to_owned()))),
                };
                let g = self.guard();
                self.used.ifs += 1;
                let end = self.st(Sk::End(code));
                let s = self.st(Sk::If {
                    branches: vec![(g, vec![end])],
                    other: None,
                    uniline: true,
                });
                out.push(s);
            }
        }
    }

    fn on_error(&mut self, out: &mut Vec<St>) {
        let k = match self.cfg.err {
            ErrMode::ResumeNext => {
                if self.s.chance(1, 5) {
                    OnErr::Reset
                } else {
                    OnErr::ResumeNext
                }
            }
            ErrMode::Handler => {
                if self.frame.fun.is_some() {
                    return;
                }
                if self.s.chance(1, 6) {
                    OnErr::Reset
                } else {
                    OnErr::Goto(self.handler.as_ref().unwrap().0.clone())
                }
            }
            _ => return,
        };
        self.used.handlers += 1;
        let s = self.st(Sk::OnError(k));
        out.push(s);
    }

    fn exit_stmt(&mut self, out: &mut Vec<St>) {
        let g = self.guard();
        let fun = self.frame.fun.as_ref().map(|f| f.def.is_fn);
        let k = if !self.frame.loops.is_empty() && (fun.is_none() || self.s.chance(3, 4)) {
            // Exits apply to the innermost loop of the given kind.
            let i = self.s.idx(self.frame.loops.len());
            let kind = self.frame.loops[i].0;
            let i = self.frame.loops.iter().rposition(|l| l.0 == kind).unwrap();
            let st = self.frame.assigned.clone();
            let l = &mut self.frame.loops[i];
            l.1 = Some(match &l.1 {
                None => st,
                Some(o) => o.intersection(&st).cloned().collect(),
            });
            kind
        } else if self.in_gosub.is_some() {
            return;
        } else {
            match fun {
                None => return,
                Some(true) => ExitKind::Function,
                Some(false) => ExitKind::Sub,
            }
        };
        self.used.exits += 1;
        let e = self.st(Sk::Exit(k));
        let multi = self.s.chance(1, 3);
        let mut body = vec![];
        if multi {
            let o = self.out();
            body.push(o);
        }
        body.push(e);
        let s = self.st(Sk::If { branches: vec![(g, body)], other: None, uniline: !multi });
        out.push(s);
    }

    fn if_stmt(&mut self, out: &mut Vec<St>) {
        self.used.ifs += 1;
        if self.s.chance(1, 4) {
            let g = self.guard();
            let b = vec![self.simple_stmt()];
            let other = if self.s.chance(1, 2) { Some(vec![self.simple_stmt()]) } else { None };
            let s = self.st(Sk::If { branches: vec![(g, b)], other, uniline: true });
            out.push(s);
            return;
        }
        let n = self.s.range(1, 3);
        let before = self.frame.assigned.clone();
        let mut merged: Option<HashSet<String>> = None;
        let mut branches = vec![];
        for _ in 0..n {
            self.frame.assigned = before.clone();
            let g = self.guard();
            let b = self.body(3);
            branches.push((g, b));
            merged = Some(match merged {
                None => self.frame.assigned.clone(),
                Some(m) => m.intersection(&self.frame.assigned).cloned().collect(),
            });
        }
        self.frame.assigned = before.clone();
        let other = if self.s.chance(1, 2) { Some(self.body(3)) } else { None };
        let m = merged.unwrap();
        self.frame.assigned = m.intersection(&self.frame.assigned).cloned().collect();
        if self.cfg.contain {
            // Guards that fail can enter arbitrary branches.
            self.frame.assigned = self.frame.assigned.intersection(&before).cloned().collect();
        }
        let s = self.st(Sk::If { branches, other, uniline: false });
        out.push(s);
    }

    fn select_stmt(&mut self, out: &mut Vec<St>) {
        self.used.selects += 1;
        let ty = self.ty();
        // Errors in tests and guards are not modelled when execution resumes afterwards.
        let nofail = self.cfg.err == ErrMode::ResumeNext;
        let (test, mut cases) = self.with_safe(nofail, |g| {
            let nc = nofail || g.no_calls;
            let old = std::mem::replace(&mut g.no_calls, nc);
            let test = g.expr(ty, 3);
            let n = g.s.range(0, 4);
            let mut cases = vec![];
            for _ in 0..n {
                let ng = g.s.range(1, 3);
                let mut guards = vec![];
                for _ in 0..ng {
                    let gt = if ty.num() && g.s.chance(1, 5) {
                        if ty == Ty::I { Ty::D } else { Ty::I }
                    } else {
                        ty
                    };
                    guards.push(match g.s.below(4) {
                        0 | 1 => CaseGuard::Eq(g.expr(gt, 1)),
                        2 if ty != Ty::B => {
                            let a = g.expr(gt, 1);
                            CaseGuard::To(a, g.expr(gt, 1))
                        }
                        _ => {
                            let op = if ty == Ty::B {
                                *g.s.pick(&[Bop::Eq, Bop::Ne])
                            } else {
                                *g.s.pick(&[Bop::Eq, Bop::Ne, Bop::Lt, Bop::Le, Bop::Gt, Bop::Ge])
                            };
                            CaseGuard::Is(op, g.expr(gt, 1))
                        }
                    });
                }
                cases.push((guards, vec![]));
            }
            g.no_calls = old;
            (test, cases)
        });
        let before = self.frame.assigned.clone();
        let mut after = before.clone();
        for c in &mut cases {
            self.frame.assigned = before.clone();
            c.1 = self.body(3);
            after = after.intersection(&self.frame.assigned).cloned().collect();
        }
        self.frame.assigned = before.clone();
        let other = if self.s.chance(1, 2) || cases.is_empty() { Some(self.body(3)) } else { None };
        self.frame.assigned = after.intersection(&self.frame.assigned).cloned().collect();
        let s = self.st(Sk::Select { test, cases, other });
        out.push(s);
    }

    fn loop_body(&mut self, kind: ExitKind, mult: u32, max: i64) -> (Vec<St>, Option<HashSet<String>>) {
        let old = self.loop_mult;
        self.loop_mult = self.loop_mult.saturating_mul(mult);
        self.frame.loops.push((kind, None));
        let b = self.body(max);
        let l = self.frame.loops.pop().unwrap();
        self.loop_mult = old;
        (b, l.1)
    }

    fn for_stmt(&mut self, out: &mut Vec<St>) {
        self.used.loops += 1;
        let dbl = self.s.chance(1, 4);
        let reuse: Vec<Var> = self
            .assignable()
            .into_iter()
            .filter(|v| v.ty == if dbl { Ty::D } else { Ty::I })
            .filter(|v| !(v.global && self.frame.fun.is_some()))
            .collect();
        let n = self.s.range(0, 5) as i32;
        let step: Option<StepLit> = if dbl {
            Some(StepLit::Dbl(
                (*self.s.pick(&["1.0", "0.5", "0.25"])).to_owned(),
                self.s.chance(1, 3),
            ))
        } else {
            match self.s.below(4) {
                0 | 1 => None,
                2 => Some(StepLit::Int(self.s.range(1, 3) as i32)),
                _ => Some(StepLit::Int(-(self.s.range(1, 3) as i32))),
            }
        };
        let down = match &step {
            Some(StepLit::Int(i)) => *i < 0,
            Some(StepLit::Dbl(_, n)) => *n,
            None => false,
        };
        let a = self.s.range(-3, 4) as i32;
        let lit = |i: i32| if i < 0 { Ex::neg(Ex::int(-i)) } else { Ex::int(i) };
        let (from, to) = (lit(a), lit(if down { a - n } else { a + n }));
        // The end expression is evaluated on every iteration.
        let to = match self.s.below(5) {
            0 => Ex::bin(
                Bop::Sub,
                Ex::bin(Bop::Add, to, Ex::new(Ek::Call(Name::new("LOGI"), vec![Ex::int(7)]))),
                Ex::int(7),
            ),
            1 => {
                let v = self.readable(Ty::I, false);
                if v.is_empty() {
                    to
                } else {
                    let v = v[self.s.idx(v.len())].clone();
                    Ex::bin(Bop::And, Ex::new(Ek::Var(Name::new(v.name))), Ex::int(7))
                }
            }
            _ => to,
        };
        let ty = if dbl { Ty::D } else { Ty::I };
        let (var, is_new) = if !reuse.is_empty() && self.s.chance(1, 3) {
            (reuse[self.s.idx(reuse.len())].clone(), false)
        } else {
            let name = self.fresh("i");
            (
                Var {
                    name,
                    ty,
                    ndims: 0,
                    dims: vec![],
                    global: false,
                    locked: true,
                    depth: self.frame.block,
                },
                true,
            )
        };
        // Iterators with integer steps take their type from the start expression.
        let from = if dbl && !is_new {
            if self.s.chance(1, 2) {
                Ex::new(Ek::Dbl(format!("{}.5", a.abs())))
            } else {
                from
            }
        } else {
            from
        };
        if is_new {
            self.frame.vars.push(var.clone());
        }
        let was_locked = self.frame.vars.iter().find(|v| v.name == var.name).map(|v| v.locked);
        for v in &mut self.frame.vars {
            if v.name == var.name {
                v.locked = true;
            }
        }
        self.frame.assigned.insert(var.name.clone());
        let before = self.frame.assigned.clone();
        let (body, exits) = self.loop_body(ExitKind::For, 5, 4);
        self.frame.assigned = before;
        if let Some(e) = exits {
            self.frame.assigned = self.frame.assigned.intersection(&e).cloned().collect();
        }
        if let Some(l) = was_locked {
            for v in &mut self.frame.vars {
                if v.name == var.name && !is_new {
                    v.locked = l;
                }
            }
        }
        let ann = if self.s.chance(1, 4) { Some(ty) } else { None };
        let s = self.st(Sk::For { var: Name::with(var.name, ann), from, to, step, body });
        out.push(s);
    }

    /// Creates a counter that bounds a loop.
    fn counter(&mut self, out: &mut Vec<St>) -> String {
        let name = self.fresh("c");
        self.define(name.clone(), Ty::I, 0, vec![]);
        self.frame.vars.last_mut().unwrap().locked = true;
        let s = self.st(Sk::Assign(Name::new(name.clone()), Ex::int(0)));
        out.push(s);
        name
    }

    fn bump(&mut self, c: &str) -> St {
        self.st(Sk::Assign(Name::new(c), Ex::bin(Bop::Add, Ex::var(c), Ex::int(1))))
    }

    fn while_stmt(&mut self, out: &mut Vec<St>) {
        self.used.loops += 1;
        let c = self.counter(out);
        let n = self.s.range(0, 4) as i32;
        let bound = Ex::bin(Bop::Lt, Ex::var(&c), Ex::int(n));
        let g = if self.s.chance(1, 2) {
            let extra = self.with_safe(self.cfg.contain, |g| g.expr(Ty::B, 2));
            Ex::bin(Bop::And, bound, extra)
        } else {
            bound
        };
        let before = self.frame.assigned.clone();
        let bump = self.bump(&c);
        // EXIT does not apply to WHILE loops.
        let old = self.loop_mult;
        self.loop_mult = self.loop_mult.saturating_mul(5);
        let mut body = vec![bump];
        body.extend(self.body(4));
        self.loop_mult = old;
        self.frame.assigned = before;
        let s = self.st(Sk::While(g, body));
        out.push(s);
    }

    fn do_stmt(&mut self, out: &mut Vec<St>) {
        self.used.loops += 1;
        let c = self.counter(out);
        let n = self.s.range(0, 4) as i32;
        let extra = if self.s.chance(1, 2) {
            Some(self.with_safe(self.cfg.contain, |g| g.expr(Ty::B, 2)))
        } else {
            None
        };
        let mk = |until: bool, extra: Option<Ex>| {
            let op = if until { Bop::Ge } else { Bop::Lt };
            let b = Ex::bin(op, Ex::var(&c), Ex::int(n));
            match extra {
                None => b,
                Some(x) => Ex::bin(if until { Bop::Or } else { Bop::And }, b, x),
            }
        };
        let kind = self.s.below(5);
        let bump = self.bump(&c);
        let before = self.frame.assigned.clone();
        let (rest, mut exits) = self.loop_body(ExitKind::Do, 5, 4);
        let mut body = vec![bump];
        if kind == 4 {
            // Infinite loop that must exit.
            let e = self.st(Sk::Exit(ExitKind::Do));
            self.used.exits += 1;
            let g = Ex::bin(Bop::Gt, Ex::var(&c), Ex::int(n));
            let s = self.st(Sk::If { branches: vec![(g, vec![e])], other: None, uniline: true });
            body.push(s);
            exits = Some(match exits {
                None => before.clone(),
                Some(x) => x.intersection(&before).cloned().collect(),
            });
        }
        body.extend(rest);
        let after_body = self.frame.assigned.clone();
        self.frame.assigned = match kind {
            0 | 1 => before.clone(),
            4 => exits.clone().unwrap(),
            _ => {
                if self.cfg.contain {
                    before.clone()
                } else {
                    after_body
                }
            }
        };
        if let Some(e) = exits {
            self.frame.assigned = self.frame.assigned.intersection(&e).cloned().collect();
        }
        let (pre, post) = match kind {
            0 => (Some((false, mk(false, extra))), None),
            1 => (Some((true, mk(true, extra))), None),
            2 => (None, Some((false, mk(false, extra)))),
            3 => (None, Some((true, mk(true, extra)))),
            _ => (None, None),
        };
        let s = self.st(Sk::Do { pre, post, body });
        out.push(s);
    }

    fn backward(&mut self, out: &mut Vec<St>) {
        if self.in_gosub.is_some() || self.frame.block >= 4 {
            return;
        }
        let c = self.counter(out);
        let l = self.new_label();
        let s = self.st(Sk::Label(l.clone()));
        out.push(s);
        let old = self.loop_mult;
        self.loop_mult = self.loop_mult.saturating_mul(3);
        // Jumps from before the region must not skip the initialization of its counter.
        self.enter_block();
        let n = self.s.range(0, 3);
        for _ in 0..n {
            if self.fuel <= 0 {
                break;
            }
            self.stmt(out);
        }
        self.leave_block(out);
        self.loop_mult = old;
        let bump = self.bump(&c);
        out.push(bump);
        let k = self.s.range(1, 3) as i32;
        self.used.jumps += 1;
        let goto = self.st(Sk::Goto(l));
        let g = Ex::bin(Bop::Lt, Ex::var(&c), Ex::int(k));
        let s = self.st(Sk::If { branches: vec![(g, vec![goto])], other: None, uniline: true });
        out.push(s);
    }

    /// Generates the bodies of the subroutines reached via GOSUB from the current frame.
    fn gosub_bodies(&mut self, out: &mut Vec<St>) {
        let mut i = 0;
        while i < self.frame.gosubs.len() {
            let l = self.frame.gosubs[i].clone();
            let s = self.st(Sk::Label(l));
            out.push(s);
            self.frame.assigned = self.frame.stable.clone();
            self.in_gosub = Some(i);
            let n = self.s.range(0, 3);
            for _ in 0..n {
                self.stmt(out);
            }
            // Nested subroutines only go forward.
            if i < 3 && self.cfg.jumps && self.s.chance(1, 4) {
                let l = self.new_label();
                self.frame.gosubs.push(l.clone());
                self.used.gosubs += 1;
                let s = self.st(Sk::Gosub(l));
                out.push(s);
            }
            self.in_gosub = None;
            let s = self.st(Sk::Return);
            out.push(s);
            i += 1;
        }
    }

    fn signature(&mut self) -> Fun {
        let is_fn = self.s.chance(2, 3);
        let name = self.fresh(if is_fn { "fn" } else { "sb" });
        let recursive = self.s.chance(1, 4);
        let np = self.s.range(if recursive { 1 } else { 0 }, 3) as usize;
        let mut params = vec![];
        for i in 0..np {
            let ty = if i == 0 && recursive { Ty::I } else { self.ty() };
            let as_ty = self.s.chance(1, 3);
            let ann = if ty == Ty::I && !as_ty && self.s.chance(1, 2) { None } else { Some(ty) };
            let name = self.fresh("p");
            params.push(Param { name: Name { s: name, ann }, as_ty });
        }
        let ann = if is_fn {
            let t = self.ty();
            if t == Ty::I && self.s.chance(1, 2) { None } else { Some(t) }
        } else {
            None
        };
        Fun {
            def: CallableDef { name: Name { s: name, ann }, is_fn, params },
            recursive,
            cost: 8,
        }
    }

    /// Generates a callable definition.
    fn callable(&mut self, f: &Fun) -> (St, u32) {
        let saved = std::mem::take(&mut self.frame);
        let saved_mult = std::mem::replace(&mut self.loop_mult, 1);
        let saved_fuel = self.fuel;
        self.fuel = self.s.range(1, 8);
        self.frame.fun = Some(f.clone());
        for (i, p) in f.def.params.iter().enumerate() {
            let ty = p.name.ann.unwrap_or(Ty::I);
            self.define(p.name.s.clone(), ty, 0, vec![]);
            if i == 0 && f.recursive {
                self.frame.vars.last_mut().unwrap().locked = true;
            }
        }
        let mut body = vec![];
        // Locals that are always set.
        let n = self.s.range(0, 3);
        for _ in 0..n {
            let s = if self.cfg.arrays && self.s.chance(1, 4) {
                self.new_array(false)
            } else {
                self.new_var()
            };
            body.push(s);
        }
        self.frame.stable = self.frame.assigned.clone();
        while self.fuel > 0 {
            self.stmt(&mut body);
        }
        if f.recursive {
            self.used.recursion += 1;
            let p0 = f.def.params[0].name.s.clone();
            let mut args = vec![Ex::bin(Bop::Sub, Ex::var(&p0), Ex::int(1))];
            for p in &f.def.params[1..] {
                args.push(self.expr_conv(p.name.ann.unwrap_or(Ty::I), 1));
            }
            let call = if f.def.is_fn {
                let e = Ex::new(Ek::Call(Name::new(f.def.name.s.clone()), args));
                match self.s.below(3) {
                    0 => self.st(Sk::Out(vec![(Some(e), OutSep::Short)])),
                    1 if !self.cfg.contain => {
                        self.st(Sk::Assign(Name::new(f.def.name.s.clone()), e))
                    }
                    _ => {
                        let l = self.leaf(f.def.ret().unwrap());
                        let op = match f.def.ret().unwrap() {
                            Ty::I => Bop::Xor,
                            Ty::D => Bop::Add,
                            Ty::B => Bop::Eq,
                            Ty::T => Bop::Add,
                        };
                        self.st(Sk::Out(vec![(Some(Ex::bin(op, l, e)), OutSep::Short)]))
                    }
                }
            } else {
                self.st(Sk::CallSub(f.def.name.s.clone(), args))
            };
            let g = Ex::bin(Bop::Gt, Ex::var(&p0), Ex::int(0));
            let s = self.st(Sk::If { branches: vec![(g, vec![call])], other: None, uniline: false });
            body.push(s);
            // Observe locals after the recursive call.
            let s = self.out();
            body.push(s);
        }
        if f.def.is_fn && self.s.chance(4, 5) {
            let ty = f.def.ret().unwrap();
            let contain = self.cfg.contain;
            let e = self.with_safe(contain, |g| g.expr_conv(ty, 3));
            let s = self.st(Sk::Assign(Name::new(f.def.name.s.clone()), e));
            body.push(s);
        }
        self.flush_labels(&mut body);
        if !self.frame.gosubs.is_empty() {
            if self.s.chance(1, 2) {
                let s = self.st(Sk::Exit(if f.def.is_fn {
                    ExitKind::Function
                } else {
                    ExitKind::Sub
                }));
                body.push(s);
                self.gosub_bodies(&mut body);
            } else {
                let l = self.new_label();
                let s = self.st(Sk::Goto(l.clone()));
                body.push(s);
                self.gosub_bodies(&mut body);
                let s = self.st(Sk::Label(l));
                body.push(s);
            }
        }
        let mut cost = self.frame.fun.as_ref().unwrap().cost + body.len() as u32 * 3;
        if f.recursive {
            cost = cost.saturating_mul(6);
        }
        self.frame = saved;
        self.loop_mult = saved_mult;
        self.fuel = saved_fuel;
        self.used.defs += 1;
        (self.st(Sk::Def(f.def.clone(), body)), cost)
    }

    /// Forgets about everything that was defined so far.
    pub fn forget(&mut self) {
        self.frame.assigned.clear();
        self.frame.vars.clear();
        self.globals.clear();
        self.funs.clear();
    }

    pub fn data_value(&mut self) -> Option<Val> {
        if self.s.chance(1, 6) {
            return None;
        }
        let ty = self.ty();
        Some(match self.literal(ty).k {
            Ek::Bool(b) => Val::B(b),
            Ek::Int(i) => {
                if self.s.chance(1, 3) && i > 0 { Val::I(-i) } else { Val::I(i) }
            }
            Ek::Dbl(t) => {
                let d: f64 = t.parse().unwrap();
                // Values that print in exponential notation are not valid literals.
                let d = if format!("{:?}", d).contains('e') { 2.5 } else { d };
                if self.s.chance(1, 3) { Val::D(-d) } else { Val::D(d) }
            }
            Ek::Txt(t) => Val::T(t.as_str().into()),
            _ => unreachable!(),
        })
    }

    /// Whether the program variable `key` has been assigned for sure.
    pub fn is_assigned(&self, key: &str) -> bool {
        self.frame.assigned.iter().any(|n| n.eq_ignore_ascii_case(key))
    }

    /// Forgets about the local variables of the program for which `keep` is false.
    pub fn retain_assigned(&mut self, keep: &dyn Fn(&str) -> bool) {
        self.frame.assigned.retain(|n| keep(n));
        self.globals.retain(|v| keep(&v.name));
    }

    /// Forgets about the program variables that may not have been assigned for sure if the last
    /// chunk stopped at any point.
    pub fn retain_stable(&mut self) {
        let st = self.frame.stable.clone();
        self.frame.assigned.retain(|n| st.contains(n));
    }

    /// Generates a further chunk of code to run after the previous one.
    pub fn chunk(&mut self, stmts: usize) -> Prog {
        self.fuel = stmts as i64;
        self.frame.pending.clear();
        self.frame.gosubs.clear();
        self.frame.loops.clear();
        self.frame.block = 0;
        self.handler = None;
        self.loop_mult = 1;
        self.program()
    }

    /// Generates a whole program.
    pub fn program(&mut self) -> Prog {
        let mut out = vec![];
        // Globals.
        let n = if self.cfg.callables { self.s.range(0, 3) } else { self.s.range(0, 1) };
        for _ in 0..n {
            if self.cfg.arrays && self.s.chance(1, 3) {
                let s = self.new_array(true);
                out.push(s);
            } else {
                let ty = self.ty();
                let name = self.fresh("g");
                self.globals.push(Var {
                    name: name.clone(),
                    ty,
                    ndims: 0,
                    dims: vec![],
                    global: true,
                    locked: false,
                    depth: 0,
                });
                let t = if ty == Ty::I && self.s.chance(1, 2) { None } else { Some(ty) };
                let s = self.st(Sk::Dim { name, shared: true, ty: t });
                out.push(s);
            }
        }
        // Locals of the main program that are always available.
        let n = self.s.range(0, 4);
        for _ in 0..n {
            let s = if self.cfg.arrays && self.s.chance(1, 4) {
                self.new_array(false)
            } else {
                self.new_var()
            };
            out.push(s);
        }
        self.frame.stable = self.frame.assigned.clone();
        // Callables.
        let mut late: Vec<St> = vec![];
        if self.cfg.callables {
            let n = self.s.range(1, 4);
            for _ in 0..n {
                let mut f = self.signature();
                let defer = self.s.chance(1, 3);
                if defer || self.s.chance(1, 6) {
                    let s = self.st(Sk::Declare(f.def.clone()));
                    out.push(s);
                }
                let (def, cost) = self.callable(&f);
                f.cost = cost;
                self.funs.push(f);
                if defer {
                    late.push(def);
                } else {
                    out.push(def);
                }
            }
        }
        let mut handler_end = None;
        if self.cfg.err == ErrMode::Handler {
            let h = self.new_label();
            let back = self.new_label();
            let c = self.counter(&mut out);
            self.frame.stable.insert(c.clone());
            let h2 = h.clone();
            self.handler = Some((h, back));
            handler_end = Some((h2, c));
            let s = self.st(Sk::OnError(OnErr::Goto(self.handler.as_ref().unwrap().0.clone())));
            self.used.handlers += 1;
            out.push(s);
        }
        if self.cfg.err == ErrMode::ResumeNext {
            let s = self.st(Sk::OnError(OnErr::ResumeNext));
            self.used.handlers += 1;
            out.push(s);
        }
        let half = self.fuel / 2;
        let mut back_done = false;
        while self.fuel > 0 {
            if let Some((_, back)) = &self.handler {
                if !back_done && self.fuel <= half {
                    let back = back.clone();
                    let s = self.st(Sk::Label(back));
                    out.push(s);
                    self.frame.assigned = self.frame.stable.clone();
                    back_done = true;
                }
            }
            self.stmt(&mut out);
        }
        // Place some definitions in the middle of the control flow.
        for d in late {
            out.push(d);
        }
        self.flush_labels(&mut out);
        if let (Some((_, back)), false) = (&self.handler, back_done) {
            let back = back.clone();
            let s = self.st(Sk::Label(back));
            out.push(s);
            self.frame.assigned = self.frame.stable.clone();
        }
        // Show the final state.
        let vars: Vec<Var> = self
            .frame
            .vars
            .iter()
            .filter(|v| v.ndims == 0 && self.frame.assigned.contains(&v.name))
            .cloned()
            .chain(self.globals.iter().filter(|v| v.ndims == 0).cloned())
            .collect();
        for chunk in vars.chunks(6) {
            let args = chunk
                .iter()
                .map(|v| (Some(Ex::var(&v.name)), OutSep::Short))
                .collect();
            let s = self.st(Sk::Out(args));
            out.push(s);
        }
        let need_tail = !self.frame.gosubs.is_empty() || handler_end.is_some();
        if need_tail {
            let end_label = self.new_label();
            if self.s.chance(1, 2) {
                let s = self.st(Sk::End(None));
                out.push(s);
            } else {
                let s = self.st(Sk::Goto(end_label.clone()));
                out.push(s);
            }
            let at_end = self.frame.assigned.clone();
            self.gosub_bodies(&mut out);
            if let Some((h, c)) = handler_end {
                let back = self.handler.as_ref().unwrap().1.clone();
                let s = self.st(Sk::Label(h.clone()));
                out.push(s);
                self.frame.assigned = self.frame.stable.clone();
                let s = self.st(Sk::Out(vec![(
                    Some(Ex::new(Ek::Call(Name::new("LASTERR"), vec![]))),
                    OutSep::Short,
                )]));
                out.push(s);
                let s = self.bump(&c);
                out.push(s);
                let end = self.st(Sk::End(Some(Ex::int(3))));
                let g = Ex::bin(Bop::Gt, Ex::var(&c), Ex::int(4));
                let s =
                    self.st(Sk::If { branches: vec![(g, vec![end])], other: None, uniline: true });
                out.push(s);
                if self.s.chance(3, 4) {
                    let s = self.st(Sk::OnError(OnErr::Goto(h)));
                    out.push(s);
                }
                let s = self.st(Sk::Goto(back));
                out.push(s);
            }
            self.frame.assigned = at_end;
            let s = self.st(Sk::Label(end_label));
            out.push(s);
            let s = self.st(Sk::Out(vec![(Some(Ex::txt("end")), OutSep::Short)]));
            out.push(s);
        }
        out
    }
}
