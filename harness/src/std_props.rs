//! Properties of the functions of the standard library that compute values.

use crate::engine::*;
use crate::std_sut::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    I(i32),
    D(f64),
    T(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    B,
    I,
    D,
    T,
    Any,
}

/// Outcome of a function: an error carries the argument it is about.
type Res = Result<V, (usize, String)>;

/// State that affects the numeric functions.
#[derive(Default)]
pub struct Env {
    degrees: bool,
}

pub struct Fun {
    name: &'static str,
    ret: Ty,
    sigs: &'static [&'static [Ty]],
    variadic: bool,
    eval: fn(&Env, &[V]) -> Res,
}

pub enum Xk {
    Lit(V),
    Var(&'static str, V),
    Call(&'static Fun, Vec<X>, &'static [Ty], bool),
    /// LBOUND or UBOUND: function, array, its dimensions and the dimension argument.
    Bound(bool, &'static str, &'static [i32], Option<Box<X>>),
}

pub struct X {
    k: Xk,
    col: Cell<usize>,
}

fn x(k: Xk) -> X {
    X { k, col: Cell::new(0) }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

fn lit_text(v: &V) -> String {
    match v {
        V::B(b) => (if *b { "TRUE" } else { "FALSE" }).to_owned(),
        V::I(i32::MIN) => "(-2147483647 - 1)".to_owned(),
        V::I(i) => format!("{}", i),
        V::D(d) => {
            let s = format!("{}", d);
            if s.contains('.') { s } else { format!("{}.0", s) }
        }
        V::T(s) => quote(s),
    }
}

fn suffix(t: Ty) -> &'static str {
    match t {
        Ty::B => "?",
        Ty::I => "%",
        Ty::D => "#",
        Ty::T => "$",
        Ty::Any => "",
    }
}

impl X {
    fn ty(&self) -> Ty {
        match &self.k {
            Xk::Lit(v) | Xk::Var(_, v) => match v {
                V::B(_) => Ty::B,
                V::I(_) => Ty::I,
                V::D(_) => Ty::D,
                V::T(_) => Ty::T,
            },
            Xk::Call(f, ..) => f.ret,
            Xk::Bound(..) => Ty::I,
        }
    }

    fn render(&self, out: &mut String) {
        self.col.set(out.chars().count() + 1);
        match &self.k {
            Xk::Lit(v) => {
                // Parentheses do not have a position of their own.
                if let V::I(i32::MIN) = v {
                    self.col.set(self.col.get() + 1);
                }
                out.push_str(&lit_text(v))
            }
            Xk::Var(n, _) => out.push_str(n),
            Xk::Call(f, args, _, sfx) => {
                out.push_str(f.name);
                if *sfx {
                    out.push_str(suffix(f.ret));
                }
                if !args.is_empty() {
                    out.push('(');
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            out.push_str(", ");
                        }
                        a.render(out);
                    }
                    out.push(')');
                }
            }
            Xk::Bound(upper, a, _, dim) => {
                out.push_str(if *upper { "UBOUND(" } else { "LBOUND(" });
                out.push_str(a);
                if let Some(d) = dim {
                    out.push_str(", ");
                    d.render(out);
                }
                out.push(')');
            }
        }
    }

    /// Evaluates the expression; errors carry their column.
    fn eval(&self, env: &Env) -> Result<V, (usize, String)> {
        match &self.k {
            Xk::Lit(v) | Xk::Var(_, v) => Ok(v.clone()),
            Xk::Call(f, args, sig, _) => {
                let mut vals = vec![];
                for (i, a) in args.iter().enumerate() {
                    let want = if f.variadic { sig[0] } else { sig[i] };
                    vals.push(conv(a.eval(env)?, want).map_err(|e| (a.col.get(), e))?);
                }
                (f.eval)(env, &vals).map_err(|(i, e)| (args[i].col.get(), e))
            }
            Xk::Bound(upper, _, dims, dim) => {
                let d = match dim {
                    Some(d) => {
                        let V::I(i) = conv(d.eval(env)?, Ty::I).map_err(|e| (d.col.get(), e))?
                        else {
                            unreachable!()
                        };
                        if i < 1 {
                            return Err((d.col.get(), format!("Dimension {} must be positive", i)));
                        }
                        if i as usize > dims.len() {
                            return Err((
                                d.col.get(),
                                format!(
                                    "Array has only {} dimensions but asked for {}",
                                    dims.len(),
                                    i
                                ),
                            ));
                        }
                        i as usize
                    }
                    None if dims.len() > 1 => {
                        return Err((
                            self.col.get() + "UBOUND(".len(),
                            "Requires a dimension for multidimensional arrays".to_owned(),
                        ));
                    }
                    None => 1,
                };
                Ok(V::I(if *upper { dims[d - 1] - 1 } else { 0 }))
            }
        }
    }
}

fn conv(v: V, want: Ty) -> Result<V, String> {
    Ok(match (v, want) {
        (V::I(i), Ty::D) => V::D(f64::from(i)),
        (V::D(d), Ty::I) => V::I(crate::lang::double_to_int(d)?),
        (v, _) => v,
    })
}

fn t(v: &V) -> Vec<char> {
    match v {
        V::T(s) => s.chars().collect(),
        _ => panic!("not a text"),
    }
}
fn i(v: &V) -> i64 {
    match v {
        V::I(i) => i64::from(*i),
        _ => panic!("not an integer"),
    }
}
fn d(v: &V) -> f64 {
    match v {
        V::D(d) => *d,
        _ => panic!("not a double"),
    }
}
fn txt(c: &[char]) -> Res {
    Ok(V::T(c.iter().collect()))
}
fn err<T>(at: usize, m: impl Into<String>) -> Result<T, (usize, String)> {
    Err((at, m.into()))
}
/// Non-negative count given as the argument `at`, limited to `max`.
fn count(v: &[V], at: usize, name: &str, max: usize) -> Result<usize, (usize, String)> {
    let n = i(&v[at]);
    if n < 0 {
        return err(at, format!("{}% cannot be negative", name));
    }
    Ok((n as u64).min(max as u64) as usize)
}

fn f_asc(_: &Env, v: &[V]) -> Res {
    let s = t(&v[0]);
    if s.len() == 1 {
        Ok(V::I(u32::from(s[0]) as i32))
    } else {
        err(
            0,
            format!(
                "Input string \"{}\" must be 1-character long",
                s.iter().collect::<String>()
            ),
        )
    }
}
fn f_chr(_: &Env, v: &[V]) -> Res {
    let c = i(&v[0]);
    if c < 0 {
        return err(0, format!("Character code {} must be positive", c));
    }
    if c > 0x10ffff || (0xd800..0xe000).contains(&c) {
        return err(0, format!("Invalid character code {}", c));
    }
    txt(&[char::from_u32(c as u32).unwrap()])
}
fn f_instr(_: &Env, v: &[V]) -> Res {
    let (start, at) = if v.len() == 3 { (i(&v[0]), 1) } else { (1, 0) };
    let (s, n) = (t(&v[at]), t(&v[at + 1]));
    if start < 1 {
        return err(0, "start% must be positive");
    }
    for p in start..=(s.len() as i64 + 1) {
        let rest = &s[p as usize - 1..];
        if rest.len() >= n.len() && rest[..n.len()] == n[..] {
            return Ok(V::I(p as i32));
        }
    }
    Ok(V::I(0))
}
fn f_lcase(_: &Env, v: &[V]) -> Res {
    txt(&t(&v[0]).into_iter().flat_map(|c| c.to_lowercase()).collect::<Vec<_>>())
}
fn f_ucase(_: &Env, v: &[V]) -> Res {
    txt(&t(&v[0]).into_iter().flat_map(|c| c.to_uppercase()).collect::<Vec<_>>())
}
fn f_left(_: &Env, v: &[V]) -> Res {
    let s = t(&v[0]);
    let n = count(v, 1, "n", s.len())?;
    txt(&s[..n])
}
fn f_right(_: &Env, v: &[V]) -> Res {
    let s = t(&v[0]);
    let n = count(v, 1, "n", s.len())?;
    txt(&s[s.len() - n..])
}
fn f_mid(_: &Env, v: &[V]) -> Res {
    let s = t(&v[0]);
    let from = count(v, 1, "start", s.len())?;
    let n = if v.len() == 3 { count(v, 2, "length", s.len())? } else { s.len() };
    txt(&s.into_iter().skip(from).take(n).collect::<Vec<_>>())
}
fn f_len(_: &Env, v: &[V]) -> Res {
    Ok(V::I(t(&v[0]).len() as i32))
}
fn trim(mut s: Vec<char>, left: bool, right: bool) -> Res {
    while left && s.first().is_some_and(|c| c.is_whitespace()) {
        s.remove(0);
    }
    while right && s.last().is_some_and(|c| c.is_whitespace()) {
        s.pop();
    }
    txt(&s)
}
fn f_ltrim(_: &Env, v: &[V]) -> Res {
    trim(t(&v[0]), true, false)
}
fn f_rtrim(_: &Env, v: &[V]) -> Res {
    trim(t(&v[0]), false, true)
}
fn f_trim(_: &Env, v: &[V]) -> Res {
    trim(t(&v[0]), true, true)
}
fn f_space(_: &Env, v: &[V]) -> Res {
    let n = count(v, 0, "n", usize::MAX)?;
    txt(&vec![' '; n])
}
/// Text that represents a number, with room for its sign.
pub fn num_text(v: &V) -> String {
    let s = match v {
        V::I(i) => i.to_string(),
        V::D(d) => d.to_string(),
        _ => unreachable!(),
    };
    if s.starts_with('-') { s } else { format!(" {}", s) }
}
fn f_str(_: &Env, v: &[V]) -> Res {
    Ok(V::T(match &v[0] {
        V::B(true) => "TRUE".to_owned(),
        V::B(false) => "FALSE".to_owned(),
        V::T(s) => s.clone(),
        n => num_text(n),
    }))
}
fn f_val(_: &Env, v: &[V]) -> Res {
    // The longest prefix that is a number, by trying them all.
    let s = t(&v[0]);
    let skip = s.iter().take_while(|c| c.is_whitespace()).count();
    let s = &s[skip..];
    let mut best = 0.0;
    for n in 1..=s.len() {
        let p = &s[..n];
        if !p.iter().all(|c| c.is_ascii_digit() || "+-.eE".contains(*c)) {
            break;
        }
        if let Ok(d) = p.iter().collect::<String>().parse::<f64>() {
            best = d;
        }
    }
    Ok(V::D(best))
}

fn f_abs(_: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    Ok(V::D(if n < 0.0 || (n == 0.0 && n.is_sign_negative()) { -n } else { n }))
}
fn out_angle(e: &Env, r: f64) -> Res {
    Ok(V::D(if e.degrees { r.to_degrees() } else { r }))
}
fn in_angle(e: &Env, r: f64) -> f64 {
    if e.degrees { r.to_radians() } else { r }
}
fn f_acos(e: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    if n >= -1.0 && n <= 1.0 {
        out_angle(e, n.acos())
    } else {
        err(0, "Cannot take arc-cosine of a number outside of [-1, 1]")
    }
}
fn f_asin(e: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    if n >= -1.0 && n <= 1.0 {
        out_angle(e, n.asin())
    } else {
        err(0, "Cannot take arc-sine of a number outside of [-1, 1]")
    }
}
fn f_atn(e: &Env, v: &[V]) -> Res {
    out_angle(e, d(&v[0]).atan())
}
fn f_cos(e: &Env, v: &[V]) -> Res {
    Ok(V::D(in_angle(e, d(&v[0])).cos()))
}
fn f_sin(e: &Env, v: &[V]) -> Res {
    Ok(V::D(in_angle(e, d(&v[0])).sin()))
}
fn f_tan(e: &Env, v: &[V]) -> Res {
    Ok(V::D(in_angle(e, d(&v[0])).tan()))
}
fn to_int(n: f64) -> Res {
    match crate::lang::double_to_int(n) {
        Ok(i) => Ok(V::I(i)),
        Err(e) => err(0, e),
    }
}
fn f_cint(_: &Env, v: &[V]) -> Res {
    to_int(d(&v[0]))
}
fn f_int(_: &Env, v: &[V]) -> Res {
    to_int(d(&v[0]).floor())
}
fn f_fix(_: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    to_int(if n < 0.0 { n.ceil() } else { n.floor() })
}
fn f_exp(_: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    let r = n.exp();
    if r.is_nan() || r.is_infinite() {
        return err(0, format!("Cannot exponentiate {} due to overflow", n));
    }
    Ok(V::D(r))
}
fn f_log(_: &Env, v: &[V]) -> Res {
    if d(&v[0]) <= 0.0 {
        return err(0, "Cannot take logarithm of zero or a negative number");
    }
    Ok(V::D(d(&v[0]).ln()))
}
fn f_sqr(_: &Env, v: &[V]) -> Res {
    if d(&v[0]) < 0.0 {
        return err(0, "Cannot take square root of a negative number");
    }
    Ok(V::D(d(&v[0]).sqrt()))
}
fn f_max(_: &Env, v: &[V]) -> Res {
    Ok(V::D(v.iter().map(d).fold(f64::NEG_INFINITY, |a, b| if b > a { b } else { a })))
}
fn f_min(_: &Env, v: &[V]) -> Res {
    Ok(V::D(v.iter().map(d).fold(f64::INFINITY, |a, b| if b < a { b } else { a })))
}
fn f_pi(_: &Env, _: &[V]) -> Res {
    Ok(V::D(std::f64::consts::PI))
}
fn f_sgn(_: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    Ok(V::I(if n > 0.0 { 1 } else if n < 0.0 { -1 } else { 0 }))
}
fn f_round(_: &Env, v: &[V]) -> Res {
    let n = d(&v[0]);
    let k = if v.len() == 2 { i(&v[1]) } else { 0 };
    let factor = 10f64.powi(k as i32);
    let scaled = n * factor;
    Ok(V::D(if !scaled.is_finite() {
        n
    } else if factor == 0.0 {
        0.0
    } else {
        scaled.round() / factor
    }))
}

macro_rules! fun {
    ($n:expr, $r:expr, [$($s:expr),*], $e:expr) => {
        Fun { name: $n, ret: $r, sigs: &[$($s),*], variadic: false, eval: $e }
    };
}

static TEXT_FUNS: &[Fun] = &[
    fun!("LEFT", Ty::T, [&[Ty::T, Ty::I]], f_left),
    fun!("RIGHT", Ty::T, [&[Ty::T, Ty::I]], f_right),
    fun!("MID", Ty::T, [&[Ty::T, Ty::I], &[Ty::T, Ty::I, Ty::I]], f_mid),
    fun!("LCASE", Ty::T, [&[Ty::T]], f_lcase),
    fun!("UCASE", Ty::T, [&[Ty::T]], f_ucase),
    fun!("LTRIM", Ty::T, [&[Ty::T]], f_ltrim),
    fun!("RTRIM", Ty::T, [&[Ty::T]], f_rtrim),
    fun!("TRIM", Ty::T, [&[Ty::T]], f_trim),
    fun!("SPACE", Ty::T, [&[Ty::I]], f_space),
    fun!("CHR", Ty::T, [&[Ty::I]], f_chr),
    fun!("STR", Ty::T, [&[Ty::Any]], f_str),
    fun!("ASC", Ty::I, [&[Ty::T]], f_asc),
    fun!("LEN", Ty::I, [&[Ty::T]], f_len),
    fun!("INSTR", Ty::I, [&[Ty::T, Ty::T], &[Ty::I, Ty::T, Ty::T]], f_instr),
    fun!("VAL", Ty::D, [&[Ty::T]], f_val),
];

static NUM_FUNS: &[Fun] = &[
    fun!("ABS", Ty::D, [&[Ty::D]], f_abs),
    fun!("ACOS", Ty::D, [&[Ty::D]], f_acos),
    fun!("ASIN", Ty::D, [&[Ty::D]], f_asin),
    fun!("ATN", Ty::D, [&[Ty::D]], f_atn),
    fun!("COS", Ty::D, [&[Ty::D]], f_cos),
    fun!("EXP", Ty::D, [&[Ty::D]], f_exp),
    fun!("LOG", Ty::D, [&[Ty::D]], f_log),
    Fun { name: "MAX", ret: Ty::D, sigs: &[&[Ty::D]], variadic: true, eval: f_max },
    Fun { name: "MIN", ret: Ty::D, sigs: &[&[Ty::D]], variadic: true, eval: f_min },
    fun!("PI", Ty::D, [&[]], f_pi),
    fun!("ROUND", Ty::D, [&[Ty::D], &[Ty::D, Ty::I]], f_round),
    fun!("SIN", Ty::D, [&[Ty::D]], f_sin),
    fun!("SQR", Ty::D, [&[Ty::D]], f_sqr),
    fun!("TAN", Ty::D, [&[Ty::D]], f_tan),
    fun!("CINT", Ty::I, [&[Ty::D]], f_cint),
    fun!("FIX", Ty::I, [&[Ty::D]], f_fix),
    fun!("INT", Ty::I, [&[Ty::D]], f_int),
    fun!("SGN", Ty::I, [&[Ty::D]], f_sgn),
];

const CHARS: &[char] = &[
    'a', 'b', 'c', 'A', 'B', 'z', ' ', '1', '2', '9', '0', '.', '-', '+', 'e', 'E', '"', '\\', ',',
    ':', '\'', 'ñ', 'É', 'ß', '日', '本', '😀', '\u{a0}', '\u{3000}', 'ŉ', 'İ', '_',
];

pub fn some_text(s: &mut Src, max: i64) -> String {
    let n = match s.below(12) {
        0..=9 => s.range(0, 8.min(max)),
        _ => s.range(0, max),
    };
    let pool = match s.below(4) {
        0 => &CHARS[..2],
        1 => &CHARS[..7],
        _ => CHARS,
    };
    (0..n).map(|_| *s.pick(pool)).collect()
}

fn numeric_text(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.below(3) {
        o.push(*s.pick(&[' ', '\u{a0}']));
    }
    o += s.pick(&["", "-", "+", "--"]);
    for _ in 0..s.below(5) {
        o.push(*s.pick(&['1', '0', '9']));
    }
    if s.chance(1, 2) {
        o.push('.');
        for _ in 0..s.below(4) {
            o.push(*s.pick(&['5', '0', '3']));
        }
    }
    if s.chance(1, 3) {
        o += s.pick(&["e", "E", "e+", "E-", "e.", "ee"]);
        for _ in 0..s.below(4) {
            o.push(*s.pick(&['1', '2', '0', '9']));
        }
    }
    o + s.pick(&["", "", " ", "x", "%", ".", "é"])
}

pub fn some_int(s: &mut Src) -> i32 {
    match s.below(8) {
        0..=4 => s.range(0, 12) as i32,
        5 => -(s.range(0, 12) as i32),
        6 => *s.pick(&[100, 255, 256, 1000, -1000, 0xd800, 0x10ffff, 0x110000]),
        _ => *s.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 65, 0x1f600]),
    }
}

pub fn some_double(s: &mut Src) -> f64 {
    match s.below(8) {
        0 | 1 => s.range(-20, 20) as f64 / 2.0,
        2 => s.range(-1000, 1000) as f64 / 1000.0,
        3 => s.range(-100000, 100000) as f64 / 64.0,
        4 => *s.pick(&[0.0, -0.5, 0.5, 1.5, 2.5, -2.5, 0.1, 0.3, 1.005]),
        5 => *s.pick(&[2147483647.0, 2147483647.5, 2147483646.5, -2147483648.0, -2147483648.5, -2147483649.0, 1e10]),
        6 => *s.pick(&[1e300, -1e300, 709.0, 710.0, 1e-9, 1e-300, 1e20]),
        _ => {
            let m = s.range(-9999, 9999) as f64;
            m * 10f64.powi(s.range(-6, 6) as i32)
        }
    }
}

const ARRAYS: &[(&str, &[i32])] = &[("aa", &[5]), ("bb", &[3, 1]), ("cc", &[2, 7, 4])];

struct ExprGen {
    texts: Vec<(&'static str, String)>,
    nums: bool,
}

impl ExprGen {
    fn leaf(&self, s: &mut Src, want: Ty) -> X {
        match want {
            Ty::B => x(Xk::Lit(V::B(s.chance(1, 2)))),
            Ty::I => match s.below(8) {
                0 => x(Xk::Var("three", V::I(3))),
                1 => {
                    let dd = some_double(s);
                    x(Xk::Lit(V::D(dd)))
                }
                2 if self.nums => {
                    let (name, dims) = *s.pick(ARRAYS);
                    let dim = match s.below(4) {
                        0 => None,
                        _ => Some(Box::new(x(Xk::Lit(V::I(match s.below(8) {
                            0 => some_int(s),
                            _ => s.range(0, 4) as i32,
                        }))))),
                    };
                    x(Xk::Bound(s.chance(1, 2), name, dims, dim))
                }
                _ => x(Xk::Lit(V::I(some_int(s)))),
            },
            Ty::D => match s.below(12) {
                0 | 1 => x(Xk::Lit(V::I(some_int(s)))),
                2 if self.nums => x(Xk::Var("big", V::D(f64::INFINITY))),
                3 if self.nums => x(Xk::Var("small", V::D(f64::NEG_INFINITY))),
                4 if self.nums && s.chance(1, 3) => x(Xk::Var("nan", V::D(f64::NAN))),
                5 => x(Xk::Var("half", V::D(0.5))),
                _ => x(Xk::Lit(V::D(some_double(s)))),
            },
            Ty::T => match s.below(4) {
                0 => {
                    let (n, v) = s.pick(&self.texts);
                    x(Xk::Var(n, V::T(v.clone())))
                }
                1 => x(Xk::Lit(V::T(numeric_text(s)))),
                _ => x(Xk::Lit(V::T(some_text(s, 40)))),
            },
            Ty::Any => {
                let w = *s.pick(&[Ty::I, Ty::D, Ty::T, Ty::B]);
                self.leaf(s, w)
            }
        }
    }

    fn expr(&self, s: &mut Src, want: Ty, depth: i64) -> X {
        if depth == 0 || want == Ty::B || s.chance(1, 5) {
            return self.leaf(s, want);
        }
        let want = if want == Ty::Any { *s.pick(&[Ty::I, Ty::D, Ty::T]) } else { want };
        let mut c: Vec<&'static Fun> = vec![];
        let funs: &[&'static [Fun]] =
            if self.nums { &[NUM_FUNS, NUM_FUNS, TEXT_FUNS] } else { &[TEXT_FUNS] };
        for table in funs {
            for f in table.iter() {
                if f.ret == want || (want == Ty::D && f.ret == Ty::I) || (want == Ty::I && f.ret == Ty::D && depth > 2) {
                    c.push(f);
                }
            }
        }
        if self.nums {
            c.retain(|f| f.ret != Ty::T || f.name == "STR");
        }
        if c.is_empty() {
            return self.leaf(s, want);
        }
        let f = *s.pick(&c);
        self.call(s, f, depth)
    }

    fn call(&self, s: &mut Src, f: &'static Fun, depth: i64) -> X {
        let sig = *s.pick(f.sigs);
        let sfx = s.chance(1, 3);
        if f.variadic {
            let n = s.range(1, 5);
            let args = (0..n).map(|_| self.expr(s, sig[0], depth - 1)).collect();
            return x(Xk::Call(f, args, sig, sfx));
        }
        if f.name == "SPACE" {
            // Larger ones are only limited by memory.
            let n = match s.below(6) {
                0 => -(s.range(1, 1000) as i32),
                1 => s.range(0, 300) as i32,
                _ => s.range(0, 10) as i32,
            };
            return x(Xk::Call(f, vec![x(Xk::Lit(V::I(n)))], sig, sfx));
        }
        if f.name == "INSTR" && s.chance(2, 3) {
            // Make matches likely.
            let hay: Vec<char> = some_text(s, 30).chars().collect();
            let a = s.idx(hay.len() + 1);
            let b = s.idx(hay.len() + 1);
            let needle: String = hay[a.min(b)..a.max(b).min(a.min(b) + 3)].iter().collect();
            let mut args = vec![];
            if sig.len() == 3 {
                args.push(x(Xk::Lit(V::I(s.range(0, hay.len() as i64 + 2) as i32))));
            }
            args.push(x(Xk::Lit(V::T(hay.iter().collect()))));
            args.push(x(Xk::Lit(V::T(needle))));
            return x(Xk::Call(f, args, sig, sfx));
        }
        let mut args: Vec<X> = sig.iter().map(|t| self.expr(s, *t, depth - 1)).collect();
        if f.name == "ROUND" && args.len() == 2 && s.chance(3, 4) {
            args[1] = x(Xk::Lit(V::I(match s.below(4) {
                0 => *s.pick(&[307, 308, 309, -308, -309, 400, -400, i32::MAX, i32::MIN]),
                _ => s.range(-6, 6) as i32,
            })));
        }
        x(Xk::Call(f, args, sig, sfx))
    }
}

fn show_v(v: &V) -> String {
    match v {
        V::B(b) => format!("{}?", b),
        V::I(i) => format!("{}%", i),
        V::D(d) => format!("{:?}#", d),
        V::T(s) => format!("{:?}$", s),
    }
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-3)
}

/// Compares an output line to what was expected, allowing for differences in the last digits.
fn same(got: &str, want: &str) -> bool {
    if got == want {
        return true;
    }
    match (got.strip_suffix('#'), want.strip_suffix('#')) {
        (Some(a), Some(b)) => match (a.parse::<f64>(), b.parse::<f64>()) {
            (Ok(a), Ok(b)) => close(a, b),
            _ => false,
        },
        _ => false,
    }
}

fn run_and_compare(prog: &str, want: &[Option<String>]) -> CaseResult {
    with_shared(|sut| {
        let r = sut.run(prog);
        let got = sut.take_out();
        for (i, w) in want.iter().enumerate() {
            match (got.get(i), w) {
                (Some(g), Some(w)) if same(g, w) => (),
                (Some(_), None) => (),
                (g, w) => {
                    return Err(format!("output {}: got {:?}, want {:?} (end: {:?})", i, g, w, r));
                }
            }
        }
        if got.len() != want.len() {
            return Err(format!("{} lines of output instead of {}", got.len(), want.len()));
        }
        match r {
            Ok(None) => Ok(()),
            r => Err(format!("program ended with {:?}", r)),
        }
    })
}

// ---- S01: strings

fn strings(s: &mut Src, case: &mut Case) -> CaseResult {
    let texts = vec![("t1", some_text(s, 20)), ("t2", some_text(s, 60)), ("t3", numeric_text(s))];
    let gen_ = ExprGen { texts, nums: false };
    let mut prog = String::from("ON ERROR RESUME NEXT\nthree = 3: half# = 0.5\n");
    for (n, v) in &gen_.texts {
        prog += &format!("{} = {}\n", n, quote(v));
    }
    let mut line = 2 + gen_.texts.len();
    let mut want = vec![];
    let mut errors = 0;
    let mut last = String::new();
    let env = Env::default();
    for _ in 0..s.range(1, 8) {
        let f = s.pick(TEXT_FUNS);
        let depth = s.range(1, 4);
        let e = gen_.call(s, f, depth);
        let mut stmt = String::from("OUT ");
        e.render(&mut stmt);
        line += 1;
        match e.eval(&env) {
            Ok(v) => want.push(Some(show_v(&v))),
            Err((col, m)) => {
                errors += 1;
                last = format!("{}:{}: {}", line, col, m);
            }
        }
        prog += &stmt;
        prog += "\nOUT ERRMSG\n";
        line += 1;
        want.push(Some(show_v(&V::T(last.clone()))));
    }
    case.set_text(prog.clone());
    case.nontrivial = prog.len() > 120;
    if errors > 0 {
        case.label("with errors");
    }
    if !prog.is_ascii() {
        case.label("characters beyond ASCII");
    }
    run_and_compare(&prog, &want)
}

// ---- S02: numbers

thread_local! {
    /// What the generator was seen to produce for each seed.
    static SEQS: RefCell<HashMap<i32, Vec<f64>>> = RefCell::new(HashMap::new());
    /// The last number after RANDOMIZE without a seed, and how many times in a row it appeared.
    static FRESH: std::cell::Cell<(f64, u32)> = const { std::cell::Cell::new((f64::NAN, 0)) };
}

/// State of the random numbers generator.
struct Rng {
    seed: Option<i32>,
    at: usize,
    last: Option<f64>,
}

fn numbers(s: &mut Src, case: &mut Case) -> CaseResult {
    let gen_ = ExprGen { texts: vec![("t3", "12".to_owned())], nums: true };
    let mut prog = String::from(
        "ON ERROR RESUME NEXT\nt3 = \"12\": three = 3: half# = 0.5\nDIM aa(5): DIM bb(3, 1) AS STRING: DIM cc(2, 7, 4) AS DOUBLE\n",
    );
    let big = lit_text(&V::D(1e300));
    prog += &format!("big# = {} * {}: small# = -big#: nan# = big# - big#\n", big, big);
    let mut line = 4;
    let mut want: Vec<Option<String>> = vec![];
    let mut rnd: Vec<(usize, char, Option<i32>)> = vec![];
    let mut env = Env::default();
    let mut last = String::new();
    let mut errors = 0;
    for _ in 0..s.range(1, 12) {
        line += 1;
        match s.weighted(&[10, 1, 1, 2, 4]) {
            0 => {
                let f = s.pick(NUM_FUNS);
                let depth = s.range(1, 3);
                let e = if s.chance(1, 8) {
                    gen_.leaf(s, Ty::I)
                } else {
                    gen_.call(s, f, depth)
                };
                let mut stmt = String::from("OUT ");
                e.render(&mut stmt);
                prog += &stmt;
                prog += "\nOUT ERRMSG\n";
                match e.eval(&env) {
                    Ok(v) => want.push(Some(show_v(&v))),
                    Err((col, m)) => {
                        errors += 1;
                        last = format!("{}:{}: {}", line, col, m);
                    }
                }
                line += 1;
                want.push(Some(show_v(&V::T(last.clone()))));
            }
            1 => {
                prog += "DEG\n";
                env.degrees = true;
            }
            2 => {
                prog += "RAD\n";
                env.degrees = false;
            }
            3 if s.chance(1, 4) => {
                prog += "RANDOMIZE\nOUT RND(1)\n";
                line += 1;
                rnd.push((want.len(), 'e', None));
                want.push(None);
            }
            3 => {
                let seed = some_int(s);
                prog += &format!("RANDOMIZE {}\n", lit_text(&V::I(seed)));
                rnd.push((want.len(), 's', Some(seed)));
            }
            _ => {
                match s.below(5) {
                    0 => {
                        prog += "OUT RND(0)\n";
                        rnd.push((want.len(), '0', None));
                    }
                    1 => {
                        let seed = -(s.range(1, 5) as i32);
                        prog += &format!("OUT RND({})\n", seed);
                        rnd.push((want.len(), '-', Some(seed)));
                    }
                    2 => {
                        prog += "OUT RND()\n";
                        rnd.push((want.len(), '+', None));
                    }
                    _ => {
                        prog += &format!("OUT RND({})\n", s.range(1, 100));
                        rnd.push((want.len(), '+', None));
                    }
                }
                want.push(None);
            }
        }
    }
    case.set_text(prog.clone());
    case.nontrivial = prog.lines().count() > 7;
    if errors > 0 {
        case.label("with errors");
    }
    if !rnd.is_empty() {
        case.label("random numbers");
    }
    let out = with_shared(|sut| {
        let r = sut.run(&prog);
        (r, sut.take_out())
    });
    let (r, got) = out;
    for (i, w) in want.iter().enumerate() {
        match (got.get(i), w) {
            (Some(g), Some(w)) if same(g, w) => (),
            (Some(_), None) => (),
            (g, w) => return Err(format!("output {}: got {:?}, want {:?} ({:?})", i, g, w, r)),
        }
    }
    if got.len() != want.len() || r != Ok(None) {
        return Err(format!("ended with {:?} and {} lines", r, got.len()));
    }
    let mut rng = Rng { seed: None, at: 0, last: None };
    for (at, what, seed) in rnd {
        let val = |at: usize| -> Result<f64, String> {
            let v: f64 = got[at].trim_end_matches('#').parse().map_err(|_| "not a double")?;
            if !(0.0..=1.0).contains(&v) {
                return Err(format!("random number {} out of range", v));
            }
            Ok(v)
        };
        let check = |rng: &Rng, v: f64| -> CaseResult {
            let Some(seed) = rng.seed else { return Ok(()) };
            SEQS.with(|m| {
                let mut m = m.borrow_mut();
                let seq = m.entry(seed).or_default();
                if rng.at < seq.len() {
                    if !(seq[rng.at].is_nan() || seq[rng.at] == v) {
                        return Err(format!(
                            "random number {} of seed {} was {} before and is now {}",
                            rng.at, seed, seq[rng.at], v
                        ));
                    }
                    seq[rng.at] = v;
                } else {
                    seq.resize(rng.at, f64::NAN);
                    seq.push(v);
                }
                if seq.len() >= 4 && seq.windows(4).any(|w| w.iter().all(|x| *x == w[0])) {
                    return Err(format!("random numbers of seed {} repeat: {:?}", seed, seq));
                }
                Ok(())
            })
        };
        match what {
            's' => rng = Rng { seed, at: 0, last: None },
            'e' => {
                let v = val(at)?;
                rng = Rng { seed: None, at: 0, last: Some(v) };
                // Numbers from the system's entropy do not repeat.
                let times = FRESH.with(|f| {
                    let (last, n) = f.get();
                    f.set((v, if last == v { n + 1 } else { 1 }));
                    f.get().1
                });
                if times > 3 {
                    return Err(format!("RANDOMIZE leads to the number {} every time", v));
                }
            }
            '-' => {
                let v = val(at)?;
                rng = Rng { seed, at: 0, last: Some(v) };
                check(&rng, v)?;
            }
            '0' => {
                let v = val(at)?;
                if let Some(l) = rng.last {
                    if l != v {
                        return Err(format!("RND(0) is {} but the last number was {}", v, l));
                    }
                }
                rng.last = Some(v);
                check(&rng, v)?;
            }
            _ => {
                let v = val(at)?;
                rng.at += 1;
                rng.last = Some(v);
                check(&rng, v)?;
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            rule: "programs with several calls or nested calls",
            quick: 800000,
            thorough: 20000000,
            run: strings,
            assumptions: &["lengths passed to SPACE are up to 300", "Greek final sigma is not generated"],
        },
        Prop {
            id: "S02",
            rule: "programs with at least two observations",
            quick: 800000,
            thorough: 20000000,
            run: numbers,
            assumptions: &["results of floating point functions are compared with a relative tolerance of 1e-9"],
        },
    ]
}
