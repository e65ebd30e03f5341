//! C12: the syntax that a host declares for its commands and functions is what programs can write,
//! and what the host receives is what the program wrote.

use crate::engine::{Case, CaseResult, Prop, Src};
use crate::lang::{Name, Ty, Val};
use crate::sut::upcalls;
use async_trait::async_trait;
use endbasic_core::*;
use futures_lite::future::block_on;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
    Short,
    Long,
    As,
    End,
}

impl S {
    fn text(self) -> &'static str {
        match self {
            S::Short => ";",
            S::Long => ",",
            S::As => "AS",
            S::End => "",
        }
    }
    fn real(self) -> ArgSep {
        match self {
            S::Short => ArgSep::Short,
            S::Long => ArgSep::Long,
            S::As => ArgSep::As,
            S::End => ArgSep::End,
        }
    }
}

#[derive(Clone, Debug)]
enum SepSyn {
    Exactly(S),
    OneOf(Vec<S>),
    End,
}

impl SepSyn {
    fn ok(&self, s: S) -> bool {
        match self {
            SepSyn::Exactly(e) => *e == s,
            SepSyn::OneOf(v) => v.contains(&s),
            SepSyn::End => s == S::End,
        }
    }
    fn any(&self, s: &mut Src) -> S {
        match self {
            SepSyn::Exactly(e) => *e,
            SepSyn::OneOf(v) => *s.pick(v),
            SepSyn::End => S::End,
        }
    }
    fn real(&self) -> ArgSepSyntax {
        match self {
            SepSyn::Exactly(e) => ArgSepSyntax::Exactly(e.real()),
            SepSyn::OneOf(v) => {
                let v: Vec<ArgSep> = v.iter().map(|s| s.real()).collect();
                ArgSepSyntax::OneOf(Box::leak(v.into_boxed_slice()))
            }
            SepSyn::End => ArgSepSyntax::End,
        }
    }
    fn describe(&self) -> String {
        match self {
            SepSyn::Exactly(S::As) => " AS ".to_owned(),
            SepSyn::Exactly(e) => format!("{} ", e.text()),
            SepSyn::OneOf(v) => {
                let v: Vec<&str> = v.iter().map(|s| s.text()).collect();
                format!(" <{}> ", v.join("|"))
            }
            SepSyn::End => "".to_owned(),
        }
    }
}

#[derive(Clone, Debug)]
enum Sing {
    Req(Ty),
    Ref { array: bool, define: bool },
    Opt(Ty),
    Any { missing: bool },
}

#[derive(Clone, Debug)]
enum RepTy {
    Any,
    Typed(Ty),
    VarRef,
}

#[derive(Clone, Debug)]
struct Rep {
    ty: RepTy,
    sep: SepSyn,
    require_one: bool,
    allow_missing: bool,
}

#[derive(Clone, Debug)]
struct Syn {
    sing: Vec<(Sing, SepSyn)>,
    rep: Option<Rep>,
}

fn real_ty(t: Ty) -> ExprType {
    match t {
        Ty::I => ExprType::Integer,
        Ty::D => ExprType::Double,
        Ty::B => ExprType::Boolean,
        Ty::T => ExprType::Text,
    }
}

fn ann(t: Ty) -> char {
    match t {
        Ty::I => '%',
        Ty::D => '#',
        Ty::B => '?',
        Ty::T => '$',
    }
}

const TYPES: [Ty; 4] = [Ty::I, Ty::T, Ty::D, Ty::B];
const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];

impl Syn {
    fn matches(&self, n: usize) -> bool {
        let min = self.sing.len() + usize::from(self.rep.as_ref().is_some_and(|r| r.require_one));
        n >= min && (self.rep.is_some() || n == min)
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        let mut last = String::new();
        for (i, (syn, sep)) in self.sing.iter().enumerate() {
            let n = NAMES[i];
            s += &match syn {
                Sing::Req(t) => format!("{}{}", n, ann(*t)),
                Sing::Ref { .. } => n.to_owned(),
                Sing::Opt(t) => format!("[{}{}]", n, ann(*t)),
                Sing::Any { missing: true } => format!("[{}]", n),
                Sing::Any { missing: false } => n.to_owned(),
            };
            if i + 1 < self.sing.len() || self.rep.is_none() {
                s += &sep.describe();
            } else {
                last = sep.describe();
            }
        }
        if let Some(r) = &self.rep {
            let a = match r.ty {
                RepTy::Typed(t) => ann(t).to_string(),
                _ => "".to_owned(),
            };
            let sep = r.sep.describe();
            if r.require_one {
                s += &format!("{}r1{}[{}..{}rN{}]", last, a, sep, sep, a);
            } else {
                s += &format!("[{}r1{}{}..{}rN{}]", last, a, sep, sep, a);
            }
        }
        s
    }

    fn real(&self) -> (&'static [SingularArgSyntax], Option<&'static RepeatedSyntax>) {
        let v: Vec<SingularArgSyntax> = self
            .sing
            .iter()
            .enumerate()
            .map(|(i, (syn, sep))| {
                let name = Cow::Borrowed(NAMES[i]);
                let sep = sep.real();
                match syn {
                    Sing::Req(t) => SingularArgSyntax::RequiredValue(
                        RequiredValueSyntax { name, vtype: real_ty(*t) },
                        sep,
                    ),
                    Sing::Ref { array, define } => SingularArgSyntax::RequiredRef(
                        RequiredRefSyntax {
                            name,
                            require_array: *array,
                            define_undefined: *define,
                        },
                        sep,
                    ),
                    Sing::Opt(t) => SingularArgSyntax::OptionalValue(
                        OptionalValueSyntax { name, vtype: real_ty(*t) },
                        sep,
                    ),
                    Sing::Any { missing } => SingularArgSyntax::AnyValue(
                        AnyValueSyntax { name, allow_missing: *missing },
                        sep,
                    ),
                }
            })
            .collect();
        let rep = self.rep.as_ref().map(|r| {
            let r: &'static RepeatedSyntax = Box::leak(Box::new(RepeatedSyntax {
                name: Cow::Borrowed("r"),
                type_syn: match r.ty {
                    RepTy::Any => RepeatedTypeSyntax::AnyValue,
                    RepTy::Typed(t) => RepeatedTypeSyntax::TypedValue(real_ty(t)),
                    RepTy::VarRef => RepeatedTypeSyntax::VariableRef,
                },
                sep: r.sep.real(),
                require_one: r.require_one,
                allow_missing: r.allow_missing,
            }));
            r
        });
        (Box::leak(v.into_boxed_slice()), rep)
    }
}

fn gen_sep(s: &mut Src, function: bool) -> SepSyn {
    if function {
        return SepSyn::Exactly(S::Long);
    }
    match s.below(6) {
        0..=2 => SepSyn::Exactly(S::Long),
        3 => SepSyn::Exactly(S::Short),
        4 => SepSyn::Exactly(S::As),
        _ => match s.below(3) {
            0 => SepSyn::OneOf(vec![S::Short, S::Long]),
            1 => SepSyn::OneOf(vec![S::Long, S::As]),
            _ => SepSyn::OneOf(vec![S::As, S::Short, S::Long]),
        },
    }
}

/// Generates the syntax for `n` singular arguments.
fn gen_syn(s: &mut Src, n: usize, rep: bool, function: bool) -> Syn {
    let mut sing = vec![];
    for i in 0..n {
        let ty = *s.pick(&TYPES);
        let syn = match s.below(7) {
            0 | 1 => Sing::Req(ty),
            2 | 3 => Sing::Ref { array: false, define: !function && s.chance(2, 3) },
            4 => Sing::Ref { array: true, define: false },
            5 if !function => Sing::Opt(ty),
            _ => Sing::Any { missing: !function && s.chance(1, 2) },
        };
        let sep = if i + 1 == n && !rep { SepSyn::End } else { gen_sep(s, function) };
        sing.push((syn, sep));
    }
    let rep = if rep {
        let ty = match s.below(if function { 2 } else { 3 }) {
            0 => RepTy::Typed(*s.pick(&TYPES)),
            1 => RepTy::Any,
            _ => RepTy::VarRef,
        };
        Some(Rep {
            ty,
            sep: gen_sep(s, function),
            require_one: s.chance(1, 2),
            allow_missing: !function && s.chance(1, 3),
        })
    } else {
        None
    };
    Syn { sing, rep }
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    dims: Option<Vec<usize>>,
    val: Val,
    /// Values of the array.
    vals: Vec<Val>,
}

/// Variables that are visible at some point.
#[derive(Clone, Debug, Default)]
struct Env {
    vars: Vec<Var>,
}

impl Env {
    fn find(&self, name: &str) -> Option<usize> {
        self.vars.iter().position(|v| v.name == name)
    }
}

#[derive(Clone, Debug)]
enum Ae {
    Lit(Val),
    /// Variable by name, with an annotation.
    Sym(String, Option<Ty>),
    /// Element of an array.
    Elem(String, Vec<i32>),
    /// Variable plus 1.
    Inc(String),
    Log(i32),
}

impl Ae {
    fn text(&self) -> String {
        match self {
            Ae::Lit(Val::I(i)) => format!("{}", i),
            Ae::Lit(Val::D(d)) => format!("{:?}", d),
            Ae::Lit(Val::B(b)) => (if *b { "TRUE" } else { "FALSE" }).to_owned(),
            Ae::Lit(Val::T(t)) => format!("\"{}\"", t),
            Ae::Sym(n, a) => format!("{}{}", n, a.map(|a| ann(a).to_string()).unwrap_or_default()),
            Ae::Elem(n, s) => {
                let s: Vec<String> = s.iter().map(|i| i.to_string()).collect();
                format!("{}({})", n, s.join(", "))
            }
            Ae::Inc(n) => format!("{} + 1", n),
            Ae::Log(i) => format!("LOGI({})", i),
        }
    }
}

/// What is in an argument register.
#[derive(Clone, Debug)]
enum Slot {
    Val(Val),
    Missing(S),
    Tag(S, Ty),
    PtrTag(S),
    /// Reference to a variable.
    Ref(String, bool),
}

struct Rejected(Option<String>);

type Checked<T> = Result<T, Rejected>;

const ANY: Rejected = Rejected(None);

/// A call as written.
struct Call {
    args: Vec<(Option<Ae>, S, (usize, usize), (usize, usize))>,
    pos: (usize, usize),
}

/// Evaluates an argument, adding what it shows to `log`.
fn value(env: &Env, ae: &Ae, log: &mut Vec<String>) -> Checked<Val> {
    match ae {
        Ae::Lit(v) => Ok(v.clone()),
        Ae::Sym(n, a) => {
            let v = &env.vars[env.find(n).ok_or(ANY)?];
            if v.dims.is_some() || a.is_some_and(|a| a != v.ty) {
                return Err(ANY);
            }
            Ok(v.val.clone())
        }
        Ae::Elem(n, s) => {
            let v = &env.vars[env.find(n).ok_or(ANY)?];
            let Some(dims) = &v.dims else { return Err(ANY) };
            if dims.len() != s.len() {
                return Err(ANY);
            }
            Ok(v.vals[flat(dims, s)].clone())
        }
        Ae::Inc(n) => {
            let v = &env.vars[env.find(n).ok_or(ANY)?];
            if v.dims.is_some() {
                return Err(ANY);
            }
            match &v.val {
                Val::I(i) => Ok(Val::I(i + 1)),
                Val::D(d) => Ok(Val::D(d + 1.0)),
                _ => Err(ANY),
            }
        }
        Ae::Log(i) => {
            log.push(format!("log {}", i));
            Ok(Val::I(*i))
        }
    }
}

fn flat(dims: &[usize], s: &[i32]) -> usize {
    let mut i = 0;
    for (d, s) in dims.iter().zip(s) {
        i = i * d + *s as usize;
    }
    i
}

fn convert(v: Val, ty: Ty) -> Checked<Val> {
    match (v, ty) {
        (Val::I(i), Ty::D) => Ok(Val::D(f64::from(i))),
        (Val::D(d), Ty::I) => Ok(Val::I(d.round() as i32)),
        (v, t) if v.ty() == t => Ok(v),
        _ => Err(ANY),
    }
}

/// Computes the contents of the argument registers and their positions.
fn model(
    name: &str,
    syns: &[Syn],
    function: bool,
    env: &mut Env,
    call: &Call,
    log: &mut Vec<String>,
) -> Checked<Vec<(Slot, (usize, usize))>> {
    let syntax = syntax_text(syns);
    let bad = |pos: (usize, usize)| {
        Rejected(Some(format!("{}:{}: {} expected {}", pos.0, pos.1, name, syntax)))
    };
    let n = call.args.len();
    let Some(syn) = syns.iter().find(|s| s.matches(n)) else { return Err(bad(call.pos)) };
    // Commands define the variables that they set.
    if !function {
        for (i, (ae, ..)) in call.args.iter().enumerate() {
            let define = match syn.sing.get(i) {
                Some((Sing::Ref { define, .. }, _)) => *define,
                Some(_) => false,
                None => matches!(syn.rep, Some(Rep { ty: RepTy::VarRef, .. })),
            };
            if let (true, Some(Ae::Sym(n, a))) = (define, ae)
                && env.find(n).is_none()
            {
                let ty = a.unwrap_or(Ty::I);
                env.vars.push(Var {
                    name: n.clone(),
                    ty,
                    dims: None,
                    val: ty.default(),
                    vals: vec![],
                });
            }
        }
    }
    let mut slots = vec![];
    // Ordered so that the first error found does not matter: any is fine if there are several.
    let mut errs: Vec<Rejected> = vec![];
    for (i, (ae, sep, pos, sep_pos)) in call.args.iter().enumerate() {
        let pos = if ae.is_some() { *pos } else { *sep_pos };
        let (exp_sep, end_ok) = match syn.sing.get(i) {
            Some((_, sep)) => {
                let end_ok = i + 1 == syn.sing.len()
                    && i + 1 == n
                    && syn.rep.as_ref().is_some_and(|r| !r.require_one);
                (sep, end_ok)
            }
            None => (&syn.rep.as_ref().unwrap().sep, true),
        };
        if !(exp_sep.ok(*sep) || (*sep == S::End && end_ok)) {
            errs.push(bad(*sep_pos));
        }
        let mut put = |r: Checked<Vec<Slot>>| match r {
            Ok(v) => slots.extend(v.into_iter().map(|s| (s, pos))),
            Err(e) => errs.push(e),
        };
        let scalar_ref = |env: &Env, ae: &Ae, array: bool| -> Checked<Vec<Slot>> {
            match ae {
                Ae::Sym(n, a) => {
                    let v = &env.vars[env.find(n).ok_or(ANY)?];
                    if a.is_some_and(|a| a != v.ty) {
                        return Err(ANY);
                    }
                    if v.dims.is_some() != array {
                        return Err(bad(pos));
                    }
                    Ok(vec![Slot::Ref(n.clone(), array)])
                }
                _ => Err(bad(pos)),
            }
        };
        match (syn.sing.get(i), ae) {
            (Some((Sing::Req(_) | Sing::Ref { .. } | Sing::Any { missing: false }, _)), None) => {
                errs.push(bad(call.pos));
            }
            (Some((Sing::Req(t), _)), Some(ae)) => {
                put(value(env, ae, log).and_then(|v| convert(v, *t)).map(|v| vec![Slot::Val(v)]));
            }
            (Some((Sing::Ref { array, .. }, _)), Some(ae)) => put(scalar_ref(env, ae, *array)),
            (Some((Sing::Opt(_) | Sing::Any { .. }, _)), None) => {
                put(Ok(vec![Slot::Missing(*sep)]))
            }
            (Some((Sing::Opt(t), _)), Some(ae)) => put(value(env, ae, log)
                .and_then(|v| convert(v, *t))
                .map(|v| vec![Slot::Tag(*sep, *t), Slot::Val(v)])),
            (Some((Sing::Any { .. }, _)), Some(ae)) => {
                put(value(env, ae, log).map(|v| vec![Slot::Tag(*sep, v.ty()), Slot::Val(v)]))
            }
            (None, ae) => {
                let r = syn.rep.as_ref().unwrap();
                match ae {
                    None if r.allow_missing => put(Ok(vec![Slot::Missing(*sep)])),
                    None => errs.push(bad(pos)),
                    Some(ae) => match r.ty {
                        RepTy::Typed(t) => {
                            let plain = !r.allow_missing && matches!(r.sep, SepSyn::Exactly(_));
                            put(value(env, ae, log).and_then(|v| convert(v, t)).map(|v| {
                                if plain {
                                    vec![Slot::Val(v)]
                                } else {
                                    vec![Slot::Tag(*sep, t), Slot::Val(v)]
                                }
                            }))
                        }
                        RepTy::Any => put(value(env, ae, log)
                            .map(|v| vec![Slot::Tag(*sep, v.ty()), Slot::Val(v)])),
                        RepTy::VarRef => put(scalar_ref(env, ae, false).map(|v| {
                            let mut x = vec![Slot::PtrTag(*sep)];
                            x.extend(v);
                            x
                        })),
                    },
                }
            }
        }
    }
    if let Some(r) = &syn.rep
        && n == syn.sing.len()
    {
        let plain = matches!(r.ty, RepTy::Typed(_))
            && !r.allow_missing
            && matches!(r.sep, SepSyn::Exactly(_));
        if !plain {
            slots.push((Slot::Missing(S::End), call.pos));
        }
    }
    if errs.len() == 1 {
        return Err(errs.pop().unwrap());
    }
    if !errs.is_empty() {
        return Err(ANY);
    }
    Ok(slots)
}

fn syntax_text(syns: &[Syn]) -> String {
    match syns {
        [one] => {
            let d = one.describe();
            if d.is_empty() { "no arguments".to_owned() } else { d }
        }
        many => {
            let v: Vec<String> = many.iter().map(|s| format!("<{}>", s.describe())).collect();
            v.join(" | ")
        }
    }
}

/// What the host expects to receive and has to do.
#[derive(Clone, Default)]
struct Plan {
    /// For each register: the kind, as if it were a real one, and what to write if it is a
    /// reference to a scalar.
    slots: Vec<(Option<Slot>, Option<Val>)>,
    ret: Option<Val>,
    /// Index of the register whose position is in the error that the call fails with.
    fail: Option<(u8, bool)>,
}

type Plans = Rc<RefCell<Vec<Plan>>>;

struct Probe {
    md: Rc<CallableMetadata>,
    plans: Plans,
    log: Rc<RefCell<crate::sut::Log>>,
}

impl Probe {
    fn run(&self, mut scope: Scope<'_>) -> CallResult<()> {
        let plan = self.plans.borrow_mut().remove(0);
        let mut out = format!("{} slots", scope.nargs());
        for (i, (slot, set)) in plan.slots.iter().enumerate() {
            if i >= scope.nargs() {
                out += " missing";
                break;
            }
            let i = i as u8;
            let pos = scope.get_pos(i);
            out += &format!(" [{}:{} ", pos.line, pos.col);
            match slot.as_ref().unwrap() {
                Slot::Val(v) => match v.ty() {
                    Ty::I => out += &format!("{}%", scope.get_integer(i)),
                    Ty::D => out += &format!("{:?}#", scope.get_double(i)),
                    Ty::B => out += &format!("{}?", scope.get_boolean(i)),
                    Ty::T => out += &format!("{:?}$", scope.get_string(i)),
                },
                Slot::Missing(_) | Slot::Tag(..) | Slot::PtrTag(_) => {
                    out += &format!("{:?}", scope.get_type(i));
                }
                Slot::Ref(_, array) => {
                    let r = scope.get_ref(i);
                    if *array {
                        out += &format!("&{} {:?}", r.vtype, r.array_dimensions());
                        if r.vtype == ExprType::Integer {
                            let dims = r.array_dimensions().to_vec();
                            let last: Vec<i32> = dims.iter().map(|d| *d as i32 - 1).collect();
                            out += &format!(" {:?}", r.deref_array_integer(&last));
                            let mut past = last.clone();
                            past[0] += 1;
                            out += &format!(" {}", r.deref_array_integer(&past).is_err());
                            past[0] = -1;
                            out += &format!(" {}", r.deref_array_integer(&past).is_err());
                        }
                    } else {
                        out += &format!(
                            "&{} ",
                            match r.vtype {
                                ExprType::Boolean => format!("{}?", r.deref_boolean()),
                                ExprType::Double => format!("{:?}#", r.deref_double()),
                                ExprType::Integer => format!("{}%", r.deref_integer()),
                                ExprType::Text => format!("{:?}$", r.deref_string()),
                            }
                        );
                        if let Some(v) = set {
                            let mut r = scope.get_mut_ref(i);
                            match v {
                                Val::I(i) => r.set_integer(*i),
                                Val::D(d) => r.set_double(*d),
                                Val::B(b) => r.set_boolean(*b),
                                Val::T(t) => r.set_string(t.to_string())?,
                            }
                        }
                    }
                }
            }
            out += "]";
        }
        self.log.borrow_mut().out.push(out);
        if let Some((i, syntax)) = plan.fail {
            if syntax {
                return Err(CallError::Syntax(scope.get_pos(i), "Bad syntax".to_owned()));
            }
            return Err(CallError::Argument("Bad argument".to_owned()));
        }
        match plan.ret {
            None => Ok(()),
            Some(Val::I(i)) => scope.return_integer(i),
            Some(Val::D(i)) => scope.return_double(i),
            Some(Val::B(i)) => scope.return_boolean(i),
            Some(Val::T(i)) => scope.return_string(i.to_string()),
        }
    }
}

#[async_trait(?Send)]
impl Callable for Probe {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        self.run(scope)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        futures_lite::future::yield_now().await;
        self.run(scope)
    }
}

fn expect_slot(env: &Env, slot: &Slot) -> String {
    let sep = |s: &S| format!("{:?}", s.real());
    match slot {
        Slot::Val(v) => v.show(),
        Slot::Missing(s) => format!("Missing({})", sep(s)),
        Slot::Tag(s, t) => format!("Immediate({}, {:?})", sep(s), real_ty(*t)),
        Slot::PtrTag(s) => format!("Pointer({})", sep(s)),
        Slot::Ref(n, _) => {
            let v = &env.vars[env.find(n).unwrap()];
            match &v.dims {
                Some(d) => {
                    let mut s = format!("&{} {:?}", real_ty(v.ty), d);
                    if v.ty == Ty::I {
                        let Val::I(last) = v.vals.last().unwrap() else { panic!() };
                        s += &format!(" {:?} true true", Ok::<i32, String>(*last));
                    }
                    s
                }
                None => format!("&{} ", v.val.show()),
            }
        }
    }
}

fn gen_val(s: &mut Src, ty: Ty) -> Val {
    match ty {
        Ty::I => Val::I(s.range(0, 2000) as i32 - if s.chance(1, 3) { 2500 } else { 0 }),
        Ty::D => Val::D(s.range(0, 64) as f64 / 4.0),
        Ty::B => Val::B(s.chance(1, 2)),
        Ty::T => Val::T((*s.pick(&["", "a", "hello", "x y", "\u{f1}\u{1f600}"])).into()),
    }
}

/// Declares random variables in `env`; returns the code to do so.
fn gen_env(s: &mut Src, env: &mut Env, prefix: &str, shared: bool, lines: &mut Vec<String>) {
    let n = s.range(1, 4);
    for i in 0..n {
        let ty = *s.pick(&TYPES);
        let name = format!("{}{}", prefix, i);
        let sh = if shared { "SHARED " } else { "" };
        let tn = match ty {
            Ty::I => "INTEGER",
            Ty::D => "DOUBLE",
            Ty::B => "BOOLEAN",
            Ty::T => "STRING",
        };
        if s.chance(1, 4) {
            let dims: Vec<usize> = (0..s.range(1, 3)).map(|_| s.range(1, 3) as usize).collect();
            let d: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
            lines.push(format!("DIM {}{}({}) AS {}", sh, name, d.join(", "), tn));
            let total = dims.iter().product();
            let mut v = Var {
                name: name.clone(),
                ty,
                dims: Some(dims.clone()),
                val: ty.default(),
                vals: vec![ty.default(); total],
            };
            if s.chance(2, 3) {
                let last: Vec<i32> = dims.iter().map(|d| *d as i32 - 1).collect();
                let val = gen_val(s, ty);
                let subs: Vec<String> = last.iter().map(|i| i.to_string()).collect();
                lines.push(format!(
                    "{}({}) = {}",
                    name,
                    subs.join(", "),
                    Ae::Lit(val.clone()).text()
                ));
                *v.vals.last_mut().unwrap() = val;
            }
            env.vars.push(v);
        } else {
            let val = gen_val(s, ty);
            lines.push(format!("DIM {}{} AS {}", sh, name, tn));
            lines.push(format!("{} = {}", name, Ae::Lit(val.clone()).text()));
            env.vars.push(Var { name, ty, dims: None, val, vals: vec![] });
        }
    }
}

/// Generates an expression of a given type (or any).
fn gen_ae(s: &mut Src, env: &Env, ty: Option<Ty>) -> Ae {
    let ty = ty.unwrap_or_else(|| *s.pick(&TYPES));
    let fits: Vec<&Var> = env.vars.iter().filter(|v| v.ty == ty).collect();
    match s.below(6) {
        0 | 1 => {
            let mut v = gen_val(s, ty);
            if let (Val::D(d), true) = (&v, s.chance(1, 5)) {
                v = Val::I(*d as i32);
            }
            // Negative numbers are not literals.
            match v {
                Val::I(i) if i < 0 => Ae::Lit(Val::I(-i)),
                v => Ae::Lit(v),
            }
        }
        2 if ty == Ty::I => Ae::Log(s.range(0, 99) as i32),
        3 | 4 if !fits.is_empty() => {
            let v = *s.pick(&fits);
            match &v.dims {
                Some(d) => Ae::Elem(v.name.clone(), d.iter().map(|d| s.range(0, *d as i64 - 1) as i32).collect()),
                None => {
                    if (ty == Ty::I || ty == Ty::D) && s.chance(1, 3) {
                        Ae::Inc(v.name.clone())
                    } else {
                        Ae::Sym(v.name.clone(), if s.chance(1, 3) { Some(v.ty) } else { None })
                    }
                }
            }
        }
        5 if ty == Ty::I || ty == Ty::D => {
            // Needs a conversion.
            let other = if ty == Ty::I { Ty::D } else { Ty::I };
            match gen_val(s, other) {
                Val::I(i) => Ae::Lit(Val::I(i.abs())),
                v => Ae::Lit(v),
            }
        }
        _ => match gen_val(s, ty) {
            Val::I(i) => Ae::Lit(Val::I(i.abs())),
            v => Ae::Lit(v),
        },
    }
}

fn gen_ref(s: &mut Src, env: &Env, array: bool, define: bool, fresh: &mut usize) -> Ae {
    let fits: Vec<&Var> = env.vars.iter().filter(|v| v.dims.is_some() == array).collect();
    if define && (fits.is_empty() || s.chance(1, 3)) {
        *fresh += 1;
        let a = if s.chance(1, 2) { Some(*s.pick(&TYPES)) } else { None };
        return Ae::Sym(format!("n{}", fresh), a);
    }
    if fits.is_empty() {
        return Ae::Sym("zz".to_owned(), None);
    }
    let v = *s.pick(&fits);
    Ae::Sym(v.name.clone(), if s.chance(1, 3) { Some(v.ty) } else { None })
}

/// Generates the arguments for a call to something with syntaxes `syns`.
fn gen_args(
    s: &mut Src,
    syns: &[Syn],
    function: bool,
    env: &Env,
    fresh: &mut usize,
) -> Vec<(Option<Ae>, S)> {
    let syn = s.pick(syns).clone();
    let mut args: Vec<(Option<Ae>, S)> = vec![];
    for (syn, sep) in &syn.sing {
        let ae = match syn {
            Sing::Req(t) => Some(gen_ae(s, env, Some(*t))),
            Sing::Ref { array, define } => Some(gen_ref(s, env, *array, *define, fresh)),
            Sing::Opt(t) => {
                if s.chance(1, 3) {
                    None
                } else {
                    Some(gen_ae(s, env, Some(*t)))
                }
            }
            Sing::Any { missing } => {
                if *missing && s.chance(1, 3) {
                    None
                } else {
                    Some(gen_ae(s, env, None))
                }
            }
        };
        args.push((ae, sep.any(s)));
    }
    if let Some(r) = &syn.rep {
        let n = s.range(i64::from(r.require_one), 4);
        for _ in 0..n {
            let ae = if r.allow_missing && s.chance(1, 4) {
                None
            } else {
                Some(match r.ty {
                    RepTy::Any => gen_ae(s, env, None),
                    RepTy::Typed(t) => gen_ae(s, env, Some(t)),
                    RepTy::VarRef => gen_ref(s, env, false, true, fresh),
                })
            };
            args.push((ae, r.sep.any(s)));
        }
    }
    // Damage.
    if s.chance(1, 6) {
        match s.below(5) {
            0 if !args.is_empty() => {
                let i = s.idx(args.len());
                args.remove(i);
            }
            1 => {
                let i = s.idx(args.len() + 1);
                args.insert(i, (Some(gen_ae(s, env, None)), S::Long));
            }
            2 if !args.is_empty() => {
                let i = s.idx(args.len());
                args[i].1 = *s.pick(&[S::Short, S::Long, S::As]);
            }
            3 if !args.is_empty() => {
                let i = s.idx(args.len());
                args[i].0 = None;
            }
            _ if !args.is_empty() => {
                let i = s.idx(args.len());
                args[i].0 = Some(if s.chance(1, 2) {
                    gen_ae(s, env, None)
                } else {
                    let array = s.chance(1, 2);
                    gen_ref(s, env, array, true, fresh)
                });
            }
            _ => (),
        }
    }
    let n = args.len();
    for (i, a) in args.iter_mut().enumerate() {
        if function {
            a.1 = S::Long;
        }
        if i + 1 == n {
            a.1 = S::End;
        } else if a.1 == S::End {
            a.1 = S::Long;
        }
    }
    // A single empty argument is the same as none.
    if n == 1 && args[0].0.is_none() {
        args.clear();
    }
    // The parser rejects empty arguments in functions.
    if function {
        for a in args.iter_mut() {
            if a.0.is_none() {
                a.0 = Some(Ae::Lit(Val::I(0)));
            }
        }
    }
    args
}

/// Renders a call starting at (`line`, `col`).
fn render_call(
    s: &mut Src,
    name: &str,
    function: bool,
    args: &[(Option<Ae>, S)],
    line: usize,
    col: usize,
) -> (String, Call) {
    let mut t = name.to_owned();
    let mut call = Call { args: vec![], pos: (line, col) };
    if function {
        t.push('(');
    } else {
        t.push(' ');
    }
    let at = |t: &str| (line, col + t.chars().count());
    for (ae, sep) in args {
        if s.chance(1, 6) {
            t.push(' ');
        }
        let pos = at(&t);
        if let Some(ae) = ae {
            t += &ae.text();
        }
        match sep {
            S::As => {
                if !t.ends_with(' ') {
                    t.push(' ');
                }
            }
            _ => {
                if s.chance(1, 6) && *sep != S::End {
                    t.push(' ');
                }
            }
        }
        let sep_pos = at(&t);
        t += sep.text();
        if *sep != S::End {
            t.push(' ');
        }
        call.args.push((ae.clone(), *sep, pos, sep_pos));
    }
    if function {
        t.push(')');
    } else if let Some(last) = call.args.last_mut() {
        // The end of the line is the last separator.
        last.3 = at(&t);
    }
    (t, call)
}

pub fn host_calls(s: &mut Src, case: &mut Case) -> CaseResult {
    let function = s.chance(2, 5);
    let is_async = s.chance(1, 2);
    let ret = if function { Some(*s.pick(&TYPES)) } else { None };
    // Syntaxes whose numbers of arguments do not overlap.
    let nsyn = *s.pick(&[1, 1, 2, 3]);
    let mut syns = vec![];
    let mut n = s.range(0, 2) as usize;
    for i in 0..nsyn {
        let rep = i + 1 == nsyn && s.chance(1, 2);
        syns.push(gen_syn(s, n.min(5), rep, function));
        n += 1 + s.below(2) as usize;
        if n > 5 {
            break;
        }
    }
    let argless = syns.len() == 1 && syns[0].sing.is_empty() && syns[0].rep.is_none();
    let name = if function { "PF" } else { "PC" };
    let tuple: Vec<_> = syns.iter().map(|s| s.real()).collect();
    let mut b = CallableMetadataBuilder::new(name)
        .with_syntax(Box::leak(tuple.into_boxed_slice()))
        .with_async(is_async)
        .with_category("V")
        .with_description("V");
    if let Some(r) = ret {
        b = b.with_return_type(real_ty(r));
    }
    let md = b.build();
    let want = syntax_text(&syns);
    if md.syntax() != want {
        return Err(format!("described as {:?}; expected {:?}", md.syntax(), want));
    }
    case.label(if function { "function" } else { "command" });

    let mut lines: Vec<String> = vec![];
    let mut globals = Env::default();
    gen_env(s, &mut globals, "g", true, &mut lines);
    let mut main = Env::default();
    gen_env(s, &mut main, "v", false, &mut lines);
    let in_sub = s.chance(1, 2);
    let mut fresh = 0;
    let mut expected: Vec<String> = vec![];
    let mut plans: Vec<Plan> = vec![];
    let mut rejected: Option<Rejected> = None;
    let mut env = Env::default();
    let mut stop: Option<((usize, usize), String)> = None;
    if in_sub {
        // The callable is defined between two halves so that registers differ.
        let deep = s.chance(1, 3);
        lines.push("SUB outer(p0%, p1$)".to_owned());
        env.vars.push(Var { name: "p0".to_owned(), ty: Ty::I, dims: None, val: Val::I(41), vals: vec![] });
        env.vars.push(Var { name: "p1".to_owned(), ty: Ty::T, dims: None, val: Val::T("arg".into()), vals: vec![] });
        if deep {
            lines.insert(lines.len() - 1, "DECLARE SUB outer(p0%, p1$)".to_owned());
            lines.insert(lines.len() - 1, "SUB deep(q0%)".to_owned());
            lines.insert(lines.len() - 1, "v0q = q0 * 2".to_owned());
            lines.insert(lines.len() - 1, "outer q0, \"arg\"".to_owned());
            lines.insert(lines.len() - 1, "OUT q0; v0q".to_owned());
            lines.insert(lines.len() - 1, "END SUB".to_owned());
        }
        gen_env(s, &mut env, "l", false, &mut lines);
        env.vars.extend(globals.vars.iter().cloned());
        body(
            s, name, ret, &syns, argless, &mut env, &mut lines, &mut fresh, &mut expected, &mut plans,
            &mut rejected, &mut stop,
        );
        lines.push("END SUB".to_owned());
        if deep {
            lines.push("deep 41".to_owned());
            if stop.is_none() {
                expected.push("41% ; 82%".to_owned());
            }
        } else {
            lines.push("outer 41, \"arg\"".to_owned());
        }
        // The variables of the program did not change, except for the globals.
        for g in globals.vars.iter_mut() {
            *g = env.vars[env.find(&g.name).unwrap()].clone();
        }
        env = main;
        env.vars.extend(globals.vars);
    } else {
        env = main;
        env.vars.extend(globals.vars);
        body(
            s, name, ret, &syns, argless, &mut env, &mut lines, &mut fresh, &mut expected, &mut plans,
            &mut rejected, &mut stop,
        );
    }
    show_env(&env, &mut lines, &mut expected, stop.is_none());
    let text = lines.join("\n") + "\n";
    case.set_text(format!("{} {} is {}\n{}", if is_async { "async" } else { "sync" }, name, want, text));

    let log: Rc<RefCell<crate::sut::Log>> = Rc::default();
    let shared: Plans = Rc::new(RefCell::new(plans));
    let mut up = upcalls(&log, is_async);
    up.insert(name.into(), Rc::new(Probe { md, plans: shared.clone(), log: log.clone() }));
    let mut compiler = Compiler::new(&up, &[]).map_err(|e| format!("compiler: {}", e))?;
    let mut image = Image::default();
    let r = compiler.compile_more(&mut image, &mut text.as_bytes());
    match (r, rejected) {
        (Ok(()), None) => (),
        (Ok(()), Some(Rejected(m))) => {
            return Err(format!("invalid call accepted; expected {}", m.unwrap_or("an error".to_owned())));
        }
        (Err(e), None) => return Err(format!("valid call rejected: {}", e)),
        (Err(e), Some(Rejected(m))) => {
            case.label("rejected");
            if let Some(m) = m
                && e.to_string() != m
            {
                return Err(format!("rejected with {}; expected {}", e, m));
            }
            case.nontrivial = true;
            return Ok(());
        }
    }
    let mut vm = Vm::new(up);
    let got = loop {
        match vm.exec(&image) {
            StopReason::Eof => break None,
            StopReason::End(_) => return Err("unexpected END".to_owned()),
            StopReason::Exception(p, m) => break Some(((p.line, p.col), m)),
            StopReason::UpcallAsync(h) => {
                if let Err(e) = block_on(h.invoke()) {
                    let (p, m) = e.parts();
                    break Some(((p.line, p.col), m));
                }
            }
            StopReason::Yield => (),
        }
    };
    let out = std::mem::take(&mut log.borrow_mut().out);
    for (i, e) in expected.iter().enumerate() {
        match out.get(i) {
            Some(o) if o == e => (),
            o => return Err(format!("line {} is {:?}; expected {:?}", i + 1, o, e)),
        }
    }
    if out.len() > expected.len() {
        return Err(format!("unexpected output {:?}", out[expected.len()]));
    }
    if got != stop {
        return Err(format!("stopped with {:?}; expected {:?}", got, stop));
    }
    if stop.is_some() {
        case.label("failed");
    }
    case.nontrivial = true;
    Ok(())
}

/// Shows all variables.
fn show_env(env: &Env, lines: &mut Vec<String>, expected: &mut Vec<String>, reached: bool) {
    let mut names = vec![];
    let mut vals = vec![];
    for v in &env.vars {
        match &v.dims {
            None => {
                names.push(v.name.clone());
                vals.push(v.val.show());
            }
            Some(d) => {
                let subs: Vec<String> = d.iter().map(|d| (d - 1).to_string()).collect();
                names.push(format!("{}({})", v.name, subs.join(", ")));
                vals.push(v.vals.last().unwrap().show());
            }
        }
    }
    lines.push(format!("OUT {}", names.join("; ")));
    if reached {
        expected.push(vals.join(" ; "));
    }
}

#[allow(clippy::too_many_arguments)]
fn body(
    s: &mut Src,
    name: &str,
    ret: Option<Ty>,
    syns: &[Syn],
    argless: bool,
    env: &mut Env,
    lines: &mut Vec<String>,
    fresh: &mut usize,
    expected: &mut Vec<String>,
    plans: &mut Vec<Plan>,
    rejected: &mut Option<Rejected>,
    stop: &mut Option<((usize, usize), String)>,
) {
    let ncalls = s.range(1, 3);
    for _ in 0..ncalls {
        let mut args = gen_args(s, syns, ret.is_some(), env, fresh);
        if argless && ret.is_some() {
            // Functions without arguments are used without parentheses.
            args.clear();
        }
        // What surrounds a function.
        let (before, after) = match ret {
            None => ("".to_owned(), "".to_owned()),
            Some(t) => match (t, s.below(3)) {
                (Ty::I | Ty::D, 1) => ("OUT 7; 1 + 2 * ".to_owned(), "; 8".to_owned()),
                (Ty::T, 1) => ("OUT 7; \"<\" + ".to_owned(), " + \">\"; 8".to_owned()),
                (Ty::B, 1) => ("OUT 7; NOT ".to_owned(), "; 8".to_owned()),
                (Ty::I, 2) => ("OUT LOGI(5); LOGI(".to_owned(), "); 8".to_owned()),
                _ => ("OUT ".to_owned(), "".to_owned()),
            },
        };
        let indent = " ".repeat(s.below(3) as usize);
        let line = lines.len() + 1;
        let col = indent.len() + before.chars().count() + 1;
        let (mut t, call) = render_call(s, name, ret.is_some(), &args, line, col);
        if argless && ret.is_some() {
            t = name.to_owned();
        }
        lines.push(format!("{}{}{}{}", indent, before, t, after));
        if rejected.is_some() {
            continue;
        }
        let mut log = vec![];
        let old = env.clone();
        match model(name, syns, ret.is_some(), env, &call, &mut log) {
            Err(r) => {
                *rejected = Some(r);
                *env = old;
            }
            Ok(slots) => {
                if stop.is_some() {
                    continue;
                }
                if before.starts_with("OUT LOGI") {
                    expected.push("log 5".to_owned());
                }
                expected.extend(log);
                let mut plan = Plan::default();
                let mut o = format!("{} slots", slots.len());
                for (slot, pos) in &slots {
                    o += &format!(" [{}:{} {}]", pos.0, pos.1, expect_slot(env, slot));
                    let mut set = None;
                    if let Slot::Ref(n, false) = slot
                        && s.chance(2, 3)
                    {
                        let i = env.find(n).unwrap();
                        let ty = env.vars[i].ty;
                        let v = gen_val(s, ty);
                        env.vars[i].val = v.clone();
                        set = Some(v);
                    }
                    plan.slots.push((Some(slot.clone()), set));
                }
                expected.push(o);
                if s.chance(1, 12) {
                    if slots.is_empty() || s.chance(1, 3) {
                        plan.fail = Some((0, false));
                        *stop = Some((call.pos, "Bad argument".to_owned()));
                    } else {
                        let i = s.idx(slots.len());
                        plan.fail = Some((i as u8, true));
                        *stop = Some((slots[i].1, "Bad syntax".to_owned()));
                    }
                    plans.push(plan);
                    continue;
                }
                if let Some(t) = ret {
                    let v = gen_val(s, t);
                    plan.ret = Some(v.clone());
                    let shown = match (before.as_str(), &v) {
                        ("OUT ", v) => v.show(),
                        ("OUT 7; 1 + 2 * ", Val::I(i)) => format!("7% ; {}% ; 8%", 1 + 2 * i),
                        ("OUT 7; 1 + 2 * ", Val::D(d)) => format!("7% ; {:?}# ; 8%", 1.0 + 2.0 * d),
                        ("OUT 7; NOT ", Val::B(b)) => format!("7% ; {}? ; 8%", !b),
                        ("OUT 7; \"<\" + ", Val::T(t)) => {
                            format!("7% ; {} ; 8%", Val::T(format!("<{}>", t).into()).show())
                        }
                        ("OUT LOGI(5); LOGI(", Val::I(i)) => {
                            expected.push(format!("log {}", i));
                            format!("5% ; {}% ; 8%", i)
                        }
                        _ => unreachable!(),
                    };
                    expected.push(shown);
                }
                plans.push(plan);
            }
        }
    }
    show_env(env, lines, expected, stop.is_none());
    let _ = Name::new("x");
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "Random syntaxes (one to three alternatives; required, optional, any-typed and reference arguments, repeated ones, all separators) declared for a command or function, called up to three times with arguments that follow the syntax or break it, from the program or from a SUB called at depth one or two, synchronously or asynchronously. Non-trivial: the outcome was decided (every case).",
        quick: 600_000,
        thorough: 9_000_000,
        run: host_calls,
        assumptions: &[],
    }]
}
