//! Further properties of the core language: incremental use, static checks, robustness, layout,
//! execution control and host access.

use crate::core_props::*;
use crate::engine::*;
use crate::r#gen::*;
use crate::lang::*;
use crate::sut::*;
use endbasic_core::{ConstantDatum, GetGlobalError, Limits, StopReason, SymbolKey};
use futures_lite::future::block_on;

fn cfg() -> Cfg {
    Cfg {
        control: true,
        jumps: false,
        callables: false,
        arrays: true,
        err: ErrMode::Plain,
        contain: false,
        stmts: 6,
        expr_depth: 3,
        end_stmt: false,
        data: false,
        lasterr: true,
    }
}

// ---- C01: expressions

pub fn expressions(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        control: false,
        err: if s.chance(3, 4) { ErrMode::Risky } else { ErrMode::Plain },
        stmts: s.range(1, 5) as usize,
        expr_depth: s.range(2, 6) as usize,
        ..cfg()
    };
    let free = s.chance(1, 4);
    let Some((u, m, r)) = run_cfg(s, case, cfg, free) else { return Ok(()) };
    if m.interp.errors_raised > 0 {
        case.label("stops with an arithmetic, conversion or subscript error");
    }
    if u.arrays > 0 {
        case.label("array element");
    }
    if m.interp.casts > 0 {
        case.label("number conversions");
    }
    case.nontrivial = case.text.len() > 60;
    r
}

// ---- Mutation of programs

pub fn each_ex<'a>(prog: &'a mut [St], f: &mut dyn FnMut(&mut Ex)) {
    fn ex(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
        f(e);
        match &mut e.k {
            Ek::Arr(_, v) | Ek::Call(_, v) => v.iter_mut().for_each(|x| ex(x, f)),
            Ek::Neg(x) | Ek::Not(x) => ex(x, f),
            Ek::Bin(_, l, r) => {
                ex(l, f);
                ex(r, f);
            }
            _ => (),
        }
    }
    for s in prog {
        match &mut s.k {
            Sk::Assign(_, e) | Sk::SetRef(_, e) => ex(e, f),
            Sk::AssignArr(_, v, e) => {
                v.iter_mut().for_each(|x| ex(x, f));
                ex(e, f);
            }
            Sk::DimArr { dims, .. } => dims.iter_mut().for_each(|x| ex(x, f)),
            Sk::Out(v) => v.iter_mut().for_each(|(x, _)| {
                if let Some(x) = x {
                    ex(x, f)
                }
            }),
            Sk::If { branches, other, .. } => {
                for (g, b) in branches {
                    ex(g, f);
                    each_ex(b, f);
                }
                if let Some(o) = other {
                    each_ex(o, f);
                }
            }
            Sk::Select { test, cases, other } => {
                ex(test, f);
                for (gs, b) in cases {
                    for g in gs {
                        match g {
                            CaseGuard::Is(_, e) | CaseGuard::Eq(e) => ex(e, f),
                            CaseGuard::To(a, b) => {
                                ex(a, f);
                                ex(b, f);
                            }
                        }
                    }
                    each_ex(b, f);
                }
                if let Some(o) = other {
                    each_ex(o, f);
                }
            }
            Sk::For { from, to, body, .. } => {
                ex(from, f);
                ex(to, f);
                each_ex(body, f);
            }
            Sk::While(g, b) => {
                ex(g, f);
                each_ex(b, f);
            }
            Sk::Do { pre, post, body } => {
                if let Some((_, g)) = pre {
                    ex(g, f);
                }
                each_ex(body, f);
                if let Some((_, g)) = post {
                    ex(g, f);
                }
            }
            Sk::Def(_, b) => each_ex(b, f),
            Sk::CallSub(_, v) => v.iter_mut().for_each(|x| ex(x, f)),
            Sk::End(Some(e)) => ex(e, f),
            _ => (),
        }
    }
}

fn other_literal(s: &mut Src) -> Ek {
    match s.below(4) {
        0 => Ek::Bool(true),
        1 => Ek::Dbl("2.5".to_owned()),
        2 => Ek::Int(3),
        _ => Ek::Txt("t".to_owned()),
    }
}

/// Changes one expression node at random, possibly making it invalid.
fn mutate_ex(prog: &mut [St], s: &mut Src) -> &'static str {
    let mut n = 0usize;
    each_ex(prog, &mut |_| n += 1);
    if n == 0 {
        return "none";
    }
    let at = s.idx(n);
    let mut i = 0usize;
    let mut what = "none";
    const OPS: [Bop; 17] = Bop::ALL;
    each_ex(prog, &mut |e| {
        if i == at {
            match &mut e.k {
                Ek::Bin(op, ..) if s.chance(2, 3) => {
                    *op = *s.pick(&OPS);
                    what = "operator replaced";
                }
                Ek::Var(n) if s.chance(1, 2) => {
                    if s.chance(1, 2) {
                        n.ann = Some(*s.pick(&Ty::ALL));
                        what = "annotation replaced";
                    } else {
                        *n = Name::new("undef");
                        what = "variable not defined";
                    }
                }
                Ek::Arr(n, v) if s.chance(2, 3) => match s.below(4) {
                    0 => {
                        v.push(Ex::int(0));
                        what = "subscript added";
                    }
                    1 if v.len() > 1 => {
                        v.pop();
                        what = "subscript removed";
                    }
                    2 => {
                        n.ann = Some(*s.pick(&Ty::ALL));
                        what = "annotation replaced";
                    }
                    _ => {
                        let n = n.clone();
                        e.k = Ek::Var(n);
                        what = "subscripts removed";
                    }
                },
                _ => match s.below(3) {
                    0 => {
                        e.k = Ek::Not(Box::new(e.clone()));
                        what = "negated";
                    }
                    1 => {
                        e.k = Ek::Neg(Box::new(e.clone()));
                        what = "negated";
                    }
                    _ => {
                        e.k = other_literal(s);
                        what = "literal replaced";
                    }
                },
            }
        }
        i += 1;
    });
    what
}

/// Mismatches have a different wording when they happen within assignments.
fn normalize(m: &str) -> String {
    if let Some(i) = m.find("Cannot assign value of type ") {
        let rest = &m[i + "Cannot assign value of type ".len()..];
        if let Some((from, to)) = rest.split_once(" to variable of type ") {
            return format!("{}Expected {} but found {}", &m[..i], to, from);
        }
    }
    m.to_owned()
}

/// Removes the positions from any error message in an output line.
fn strip_positions(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        let digits = |mut j: usize| {
            let st = j;
            while j < cs.len() && cs[j].is_ascii_digit() {
                j += 1;
            }
            if j > st { Some(j) } else { None }
        };
        if let Some(j) = digits(i) {
            if cs.get(j) == Some(&':') {
                if let Some(k) = digits(j + 1) {
                    if cs.get(k) == Some(&':') && cs.get(k + 1) == Some(&' ') {
                        o.push_str("POS: ");
                        i = k + 2;
                        continue;
                    }
                }
            }
            o.extend(&cs[i..j]);
            i = j;
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}

/// Checks that the model and the compiler agree on the rejection of a chunk.
fn same_rejection(want: &CErr, got: &Result<(), CompErr>) -> CaseResult {
    let want = format!("{}:{}: {}", want.pos.0, want.pos.1, want.msg);
    match got {
        Ok(()) => Err(format!("invalid program accepted; expected {}", want)),
        Err(e) if normalize(&e.text) != normalize(&want) => {
            Err(format!("rejected with {:?}; expected {:?}", e.text, want))
        }
        Err(_) => Ok(()),
    }
}

const RELS: [Bop; 6] = [Bop::Eq, Bop::Ne, Bop::Lt, Bop::Le, Bop::Gt, Bop::Ge];

/// An expression that pays no attention to types.
fn wild_ex(s: &mut Src, names: &[(Name, usize)], depth: usize) -> Ex {
    match if depth == 0 { s.idx(3) } else { s.idx(6) } {
        0 | 1 => Ex::new(other_literal(s)),
        2 if !names.is_empty() => {
            let (n, dims) = s.pick(names).clone();
            let mut n = n;
            if s.chance(1, 10) {
                n.ann = Some(*s.pick(&Ty::ALL));
            }
            if dims == 0 {
                Ex::new(Ek::Var(n))
            } else {
                let scalars: Vec<(Name, usize)> =
                    names.iter().filter(|n| n.1 == 0).cloned().collect();
                let v = (0..dims).map(|_| wild_ex(s, &scalars, 0)).collect();
                Ex::new(Ek::Arr(n, v))
            }
        }
        3 => Ex::new(Ek::Not(Box::new(wild_ex(s, names, depth - 1)))),
        4 => Ex::new(Ek::Neg(Box::new(wild_ex(s, names, depth - 1)))),
        2 => Ex::int(0),
        _ => {
            const OPS: [Bop; 17] = Bop::ALL;
            let op = *s.pick(&OPS);
            Ex::bin(op, wild_ex(s, names, depth - 1), wild_ex(s, names, depth - 1))
        }
    }
}

/// A statement that pays no attention to the types of its expressions.
fn wild_stmt(s: &mut Src, names: &[(Name, usize)]) -> St {
    let d = s.idx(3);
    let body = || vec![St::new(Sk::Out(vec![(Some(Ex::int(1)), OutSep::Short)]))];
    let target = |s: &mut Src| {
        let scalars: Vec<&(Name, usize)> = names.iter().filter(|n| n.1 == 0).collect();
        if scalars.is_empty() || s.chance(1, 2) { Name::new("wz") } else { s.pick(&scalars).0.clone() }
    };
    St::new(match s.idx(9) {
        0 | 1 => {
            let test = wild_ex(s, names, d);
            let mut cases = vec![];
            for _ in 0..s.range(1, 3) {
                let mut guards = vec![];
                for _ in 0..s.range(1, 2) {
                    guards.push(match s.idx(3) {
                        0 => CaseGuard::Eq(wild_ex(s, names, d)),
                        1 => CaseGuard::Is(*s.pick(&RELS), wild_ex(s, names, d)),
                        _ => CaseGuard::To(wild_ex(s, names, d), wild_ex(s, names, d)),
                    });
                }
                cases.push((guards, body()));
            }
            let other = if s.chance(1, 2) { Some(body()) } else { None };
            Sk::Select { test, cases, other }
        }
        2 => {
            let n = target(s);
            Sk::Assign(n, wild_ex(s, names, d + 1))
        }
        3 => Sk::If {
            branches: vec![(wild_ex(s, names, d), body())],
            other: None,
            uniline: false,
        },
        4 => {
            let step = match s.idx(3) {
                0 => None,
                1 => Some(StepLit::Int(2)),
                _ => Some(StepLit::Dbl("0.5".to_owned(), false)),
            };
            let mut var = target(s);
            if matches!(var.ann, Some(Ty::B | Ty::T)) {
                // The parser rejects these before looking at anything else.
                var.ann = None;
            }
            let from = wild_ex(s, names, d);
            let to = wild_ex(s, names, d);
            Sk::For { var, from, to, step, body: body() }
        }
        5 => {
            let g = wild_ex(s, names, d);
            match s.idx(3) {
                0 => Sk::While(g, body()),
                1 => Sk::Do { pre: Some((s.chance(1, 2), g)), post: None, body: body() },
                _ => Sk::Do { pre: None, post: Some((s.chance(1, 2), g)), body: body() },
            }
        }
        6 => {
            let arrays: Vec<&(Name, usize)> = names.iter().filter(|n| n.1 > 0).collect();
            if arrays.is_empty() {
                let dims = (0..s.range(1, 2)).map(|_| wild_ex(s, names, d)).collect();
                Sk::DimArr { name: "wa".to_owned(), shared: s.chance(1, 2), dims, ty: None }
            } else {
                let (n, nd) = (*s.pick(&arrays)).clone();
                let nd = if s.chance(1, 6) { nd + 1 } else { nd };
                let subs = (0..nd).map(|_| wild_ex(s, names, 0)).collect();
                Sk::AssignArr(n, subs, wild_ex(s, names, d))
            }
        }
        7 => Sk::Out(vec![(Some(wild_ex(s, names, d + 1)), OutSep::Short)]),
        _ => Sk::End(Some(wild_ex(s, names, d))),
    })
}

/// Inserts a statement that is most likely ill typed.
fn insert_wild(prog: &mut Vec<St>, s: &mut Src) {
    let mut names: Vec<(Name, usize)> = vec![];
    let at = s.idx(prog.len() + 1);
    each_ex(&mut prog[..at], &mut |e| {
        let n = match &e.k {
            Ek::Var(n) => (n.clone(), 0),
            Ek::Arr(n, v) => (n.clone(), v.len()),
            _ => return,
        };
        if names.len() < 6 && !names.contains(&n) {
            names.push(n);
        }
    });
    let w = wild_stmt(s, &names);
    prog.insert(at, w);
}

// ---- C07: static checks

pub fn static_checks(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        callables: s.chance(1, 2),
        jumps: s.chance(1, 3),
        stmts: s.range(1, 10) as usize,
        expr_depth: 3,
        ..cfg()
    };
    let mut g = Gen::new(s, cfg);
    let mut prog = g.program();
    let wild = s.chance(1, 3);
    if wild {
        insert_wild(&mut prog, s);
        case.label("random statement inserted");
    } else {
        case.label(mutate_ex(&mut prog, s));
    }
    case.set_text(render(&prog));
    let mut rs = Resolver::new();
    match rs.chunk(&prog) {
        Err(e) => {
            case.label("rejected");
            case.nontrivial = true;
            let mut sut = Sut::new();
            let before = sut.image.disasm();
            let r = sut.compile(&case.text);
            same_rejection(&e, &r)?;
            if before != sut.image.disasm() {
                return Err("rejected program changed the image".to_owned());
            }
            Ok(())
        }
        Ok(_) if wild => {
            // The statement does not respect the restrictions that the generator imposes to steer
            // away from the known defects at run time, so only check that the code is valid.
            case.label("random statement accepted");
            let mut sut = Sut::new();
            sut.compile(&case.text).map_err(|e| format!("valid program rejected: {}", e.text))
        }
        Ok(start) => {
            case.label("still valid");
            let mut interp = Interp::new(BUDGET, 4096);
            match interp.exec(&rs, start) {
                Ok(stop) => compare(&case.text, &Modelled { interp, stop }),
                Err(_) => {
                    // The loops may have become infinite: only check that the code is valid.
                    let mut sut = Sut::new();
                    sut.compile(&case.text)
                        .map_err(|e| format!("valid program rejected: {}", e.text))
                }
            }
        }
    }
}

// ---- C05: incremental compilation

pub fn incremental(s: &mut Src, case: &mut Case) -> CaseResult {
    let callables = s.chance(1, 2);
    let base = Cfg {
        callables,
        jumps: s.chance(1, 2),
        expr_depth: 2,
        err: if s.chance(1, 2) { ErrMode::Plain } else { ErrMode::Risky },
        contain: true,
        end_stmt: s.chance(1, 4),
        data: s.chance(1, 2),
        stmts: 0,
        ..cfg()
    };
    let mut g = Gen::new(s, base);
    let mut rs = Resolver::new();
    let mut interp = Interp::new(BUDGET, 4096);
    let mut sut = Sut::new();
    let n = g.s.range(2, 5);
    let mut text = String::new();
    let mut rejected = 0;
    let mut result = Ok(());
    let free = g.s.chance(1, 5);
    for i in 0..n {
        let stmts = g.s.range(1, 7) as usize;
        g.cfg.callables = callables && (i == 0 || g.s.chance(1, 3));
        let prog = g.chunk(stmts);
        let chunk = if free { render_free(&prog, g.s) } else { render(&prog) };
        // First, feed damaged versions of this same chunk.
        let nbad = g.s.weighted(&[3, 2, 1]);
        for _ in 0..nbad {
            let mut rs2 = rs.clone();
            let mut bad = prog.clone();
            let (bad_text, want) = match g.s.below(3) {
                0 => {
                    let at = g.s.idx(bad.len() + 1);
                    let junk = match g.s.below(4) {
                        0 => Sk::Assign(Name::new("zz"), Ex::var("undef")),
                        1 => Sk::Assign(
                            Name::new("zz"),
                            Ex::bin(Bop::Add, Ex::int(1), Ex::txt("a")),
                        ),
                        2 => Sk::Out(vec![(Some(Ex::not(Ex::txt("x"))), OutSep::Short)]),
                        _ => Sk::Assign(Name::with("zz", Some(Ty::T)), Ex::int(1)),
                    };
                    bad.insert(at, St::new(junk));
                    let t = render(&bad);
                    let e = rs2.chunk(&bad).expect_err("junk must be rejected");
                    (t, Some(e))
                }
                1 => {
                    mutate_ex(&mut bad, g.s);
                    let t = render(&bad);
                    match rs2.chunk(&bad) {
                        Ok(_) => continue,
                        Err(e) => (t, Some(e)),
                    }
                }
                _ => {
                    let junk = *g.s.pick(&[
                        "GOTO @nowhere_\n",
                        "GOSUB @nowhere_\n",
                        "ON ERROR GOTO @nowhere_\n",
                        "IF TRUE THEN\n",
                        "NEXT\n",
                        "x = (1\n",
                        "x = \"unterminated\n",
                        "FOR zz = 1 TO\nNEXT\n",
                        "SELECT CASE 1\n",
                        "FUNCTION zz_f\n",
                        "EXIT DO\n",
                        "DIM zz(1, \"a\")\n",
                        "@zz_l\n@zz_l\n",
                        "DIM zz\nDIM zz\n",
                        "zz = 1 = = 2\n",
                        "OUT !\n",
                        "END SUB\n",
                        "OUT 1 2\n",
                        "DATALIST 5\n",
                        "OUT MIX(1)\n",
                        "zz(3) = 1\n",
                        "OUT ZZ_NO(1)\n",
                    ]);
                    (format!("{}{}", render(&bad), junk), None)
                }
            };
            rejected += 1;
            text += &format!("{}--- must be rejected\n", bad_text);
            let before = sut.image.disasm();
            let r = sut.compile(&bad_text);
            if r.is_err() && sut.image.disasm() != before {
                result = Err("rejected chunk changed the image".to_owned());
            } else if let Some(want) = want {
                result = same_rejection(&want, &r);
            } else if r.is_ok() {
                result = Err("invalid chunk accepted".to_owned());
            }
            if result.is_err() {
                case.set_text(text);
                return result;
            }
        }
        // The positions need to be those of the right chunk.
        if nbad > 0 && !free {
            render(&prog);
        }
        let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
        let stop = match interp.exec(&rs, start) {
            Ok(s) => s,
            Err(e) => {
                if e != "budget" {
                    panic!("harness: {}", e);
                }
                case.discarded = true;
                return Ok(());
            }
        };
        Resolver::clear_handler(&mut interp);
        text += &format!("{}---\n", chunk);
        if let Err(e) = sut.compile(&chunk) {
            case.set_text(text);
            return Err(format!("valid chunk rejected: {}", e.text));
        }
        let got = sut.run(BUDGET * 4);
        sut.vm.clear_error_handler();
        let out = sut.take_out();
        result = (|| {
            let got = got?;
            if let Some(d) = diff(&interp.out, &out) {
                return Err(format!("chunk {}: {}", i + 1, d));
            }
            if got != stop {
                return Err(format!(
                    "chunk {} stopped with {}; expected {}",
                    i + 1,
                    show_stop(&got),
                    show_stop(&stop)
                ));
            }
            Ok(())
        })();
        if result.is_err() {
            case.set_text(text);
            return result;
        }
        interp.out.clear();
        match stop {
            Stop::Eof => (),
            Stop::End(_) => case.label("chunk stopped with END"),
            Stop::Exc(..) => case.label("chunk stopped by an error"),
        }
        if stop != Stop::Eof {
            g.retain_stable();
        }
        g.retain_assigned(&|n| rs.has_value(&interp, n));
    }
    let r = sut.compile("DATALIST\n").map_err(|e| e.text).and_then(|_| sut.run(10));
    let want: Vec<String> =
        rs.data.iter().map(|d| d.as_ref().map(|v| v.show()).unwrap_or("()".to_owned())).collect();
    text += "DATALIST\n";
    case.set_text(text);
    r?;
    if sut.take_out() != [want.join(" ")] {
        return Err("DATA values differ after all chunks".to_owned());
    }
    if rejected > 0 {
        case.label("with rejected chunks");
    }
    if !rs.data.is_empty() {
        case.label("with data");
    }
    case.nontrivial = interp.steps > 10;
    result
}

// ---- C06: arbitrary text

const VOCAB: [&str; 92] = [
    "AND", "AS", "BOOLEAN", "CASE", "DATA", "DECLARE", "DIM", "DO", "DOUBLE", "ELSE", "ELSEIF",
    "END", "ERROR", "EXIT", "FOR", "FUNCTION", "GOSUB", "GOTO", "IF", "INTEGER", "IS", "LOOP",
    "MOD", "NEXT", "NOT", "ON", "OR", "REM x", "RESUME", "RETURN", "SELECT", "SHARED", "STEP",
    "STRING", "SUB", "THEN", "TO", "TRUE", "FALSE", "UNTIL", "WEND", "WHILE", "XOR", "\n", "\n",
    "\n", ":", ",", ";", "(", ")", "+", "-", "*", "/", "^", "=", "<>", "<", ">", "<=", ">=", "<<",
    ">>", "@l", "@l", "10", "1.5", "0", "2147483648", "&x_ff", "&b102", "&x80000000", "\"s\"",
    "\"", "x", "x%", "x$", "y#", "z?", "f", "OUT", "MIX", "TOTAL", "SETREF", "'c", "?", "&", "1.",
    ".5", "99999999999", "é",
];

fn token_soup(s: &mut Src) -> String {
    let n = s.range(1, 40);
    let mut t = String::new();
    for _ in 0..n {
        t += s.pick(&VOCAB);
        if s.chance(5, 6) {
            t.push(' ');
        }
    }
    t
}

/// Splits a program in words and separators.
fn tokens(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in t.chars() {
        let word = c.is_alphanumeric() || c == '_';
        match v.last_mut() {
            Some(l) if word && l.chars().all(|c| c.is_alphanumeric() || c == '_') => l.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

fn arbitrary_text(s: &mut Src, case: &mut Case) -> String {
    match s.weighted(&[1, 2, 3, 3, 1]) {
        0 => {
            case.label("random characters");
            const CH: [char; 44] = [
                'a', 'Z', '0', '9', ' ', '\n', '\t', '\r', '"', '\\', '\'', '@', '&', '_', '.',
                '#', '%', '$', '?', '!', '(', ')', ',', ';', ':', '=', '<', '>', '+', '-', '*',
                '/', '^', '~', '{', 'ñ', '€', '😀', '\u{0}', '\u{7f}', '\u{200b}', '\u{301}', 'x',
                'b',
            ];
            let n = s.range(0, 60);
            (0..n).map(|_| *s.pick(&CH)).collect()
        }
        1 => {
            case.label("random tokens");
            token_soup(s)
        }
        k => {
            let cfg = Cfg {
                callables: s.chance(1, 2),
                jumps: s.chance(1, 2),
                data: true,
                err: *s.pick(&[ErrMode::Plain, ErrMode::Handler, ErrMode::ResumeNext]),
                stmts: s.range(1, 8) as usize,
                end_stmt: true,
                ..cfg()
            };
            let free = s.chance(1, 3);
            let mut g = Gen::new(s, cfg);
            let prog = g.program();
            let t = if free { render_free(&prog, s) } else { render(&prog) };
            if k == 4 {
                case.label("truncated program");
                let cs: Vec<char> = t.chars().collect();
                let n = s.idx(cs.len() + 1);
                return cs[..n].iter().collect();
            }
            if k == 2 {
                case.label("program with damaged characters");
                let mut cs: Vec<char> = t.chars().collect();
                for _ in 0..s.range(1, 3) {
                    if cs.is_empty() {
                        break;
                    }
                    let i = s.idx(cs.len());
                    match s.below(3) {
                        0 => {
                            cs.remove(i);
                        }
                        1 => cs.insert(i, *s.pick(&['"', ')', '(', ' ', '\n', '@', '0', 'x', '='])),
                        _ => {
                            let j = s.idx(cs.len());
                            cs.swap(i, j);
                        }
                    }
                }
                cs.into_iter().collect()
            } else {
                case.label("program with damaged tokens");
                let mut ts = tokens(&t);
                for _ in 0..s.range(1, 4) {
                    if ts.is_empty() {
                        break;
                    }
                    let i = s.idx(ts.len());
                    match s.below(5) {
                        0 => {
                            ts.remove(i);
                        }
                        1 => ts.insert(i, format!(" {} ", s.pick(&VOCAB))),
                        2 => ts[i] = format!(" {} ", s.pick(&VOCAB)),
                        3 => {
                            let t = ts[i].clone();
                            ts.insert(i, t);
                        }
                        _ => {
                            let j = s.idx(ts.len());
                            ts.swap(i, j);
                        }
                    }
                }
                ts.concat()
            }
        }
    }
}

// ---- C06: the grammar

/// Tokens of an expression over integers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tk {
    Lit(&'static str),
    Var,
    Logi,
    Total,
    Open,
    Close,
    Comma,
    Not,
    Minus,
    Op(&'static str),
}

impl Tk {
    fn text(self) -> &'static str {
        match self {
            Tk::Lit(t) | Tk::Op(t) => t,
            Tk::Var => "a",
            Tk::Logi => "LOGI",
            Tk::Total => "TOTAL",
            Tk::Open => "(",
            Tk::Close => ")",
            Tk::Comma => ",",
            Tk::Not => "NOT",
            Tk::Minus => "-",
        }
    }
}

const LITS: [&str; 5] = ["1", "20", "&xf", "0", "&b_10"];
const OPS: [&str; 11] = ["+", "*", "/", "MOD", "^", "AND", "OR", "XOR", "<<", ">>", "+"];

fn any_tk(s: &mut Src) -> Tk {
    match s.idx(10) {
        0 => Tk::Lit(s.pick(&LITS)),
        1 => Tk::Var,
        2 => Tk::Logi,
        3 => Tk::Total,
        4 => Tk::Open,
        5 => Tk::Close,
        6 => Tk::Comma,
        7 => Tk::Not,
        8 => Tk::Minus,
        _ => Tk::Op(s.pick(&OPS)),
    }
}

fn gen_tks(s: &mut Src, depth: usize, out: &mut Vec<Tk>) {
    let n = s.weighted(&[3, 3, 1]) + 1;
    for i in 0..n {
        if i > 0 {
            out.push(if s.chance(1, 4) { Tk::Minus } else { Tk::Op(s.pick(&OPS)) });
        }
        while s.chance(1, 5) {
            out.push(if s.chance(1, 2) { Tk::Not } else { Tk::Minus });
        }
        match if depth == 0 { s.idx(2) } else { s.idx(5) } {
            0 => out.push(Tk::Lit(s.pick(&LITS))),
            1 => out.push(Tk::Var),
            2 => {
                out.push(Tk::Open);
                gen_tks(s, depth - 1, out);
                out.push(Tk::Close);
            }
            3 => {
                out.extend([Tk::Logi, Tk::Open]);
                gen_tks(s, depth - 1, out);
                out.push(Tk::Close);
            }
            _ => {
                out.extend([Tk::Total, Tk::Open]);
                for i in 0..s.range(1, 3) {
                    if i > 0 {
                        out.push(Tk::Comma);
                    }
                    gen_tks(s, depth - 1, out);
                }
                out.push(Tk::Close);
            }
        }
    }
}

/// Recognizes an expression at the beginning of `t` and returns what follows.
fn recognize(t: &[Tk]) -> Option<&[Tk]> {
    let mut t = t;
    loop {
        while let [Tk::Not | Tk::Minus, rest @ ..] = t {
            t = rest;
        }
        t = match t {
            [Tk::Lit(_) | Tk::Var, rest @ ..] => rest,
            [Tk::Open, rest @ ..] | [Tk::Logi, Tk::Open, rest @ ..] => match recognize(rest)? {
                [Tk::Close, rest @ ..] => rest,
                _ => return None,
            },
            [Tk::Total, Tk::Open, rest @ ..] => {
                let mut rest = rest;
                loop {
                    match recognize(rest)? {
                        [Tk::Comma, more @ ..] => rest = more,
                        [Tk::Close, more @ ..] => break more,
                        _ => return None,
                    }
                }
            }
            _ => return None,
        };
        match t {
            [Tk::Op(_) | Tk::Minus, rest @ ..] => t = rest,
            _ => return Some(t),
        }
    }
}

/// Expressions are accepted if and only if they are well formed.
fn expr_grammar(s: &mut Src, case: &mut Case) -> CaseResult {
    let mut t = vec![];
    if s.chance(1, 10) {
        for _ in 0..s.range(1, 8) {
            t.push(any_tk(s));
        }
    } else {
        gen_tks(s, 3, &mut t);
        for _ in 0..s.weighted(&[2, 3, 1]) {
            let i = s.idx(t.len());
            match s.idx(4) {
                0 if t.len() > 1 => {
                    t.remove(i);
                }
                1 => t.insert(i, any_tk(s)),
                2 => {
                    let j = s.idx(t.len());
                    t.swap(i, j);
                }
                _ => t[i] = any_tk(s),
            }
        }
    }
    let text: Vec<&str> = t.iter().map(|t| t.text()).collect();
    let (head, tail) = *s.pick(&[("x = ", ""), ("IF (", ") = 1 THEN OUT 1"), ("OUT ", " ; 1"), ("c(", ") = 2")]);
    case.set_text(format!("a = 3: DIM c(2)\n{}{}{}\nOUT 1", head, text.join(" "), tail));
    // A symbol in parentheses that is followed by others is unspecified.
    if t.windows(3).any(|w| matches!(w, [Tk::Logi | Tk::Total | Tk::Var, Tk::Close, Tk::Open])) {
        case.discarded = true;
        return Ok(());
    }
    // Separators outside of parentheses belong to the statement.
    let mut depth = 0;
    for k in &t {
        match k {
            Tk::Open => depth += 1,
            Tk::Close => depth -= 1,
            Tk::Comma if depth <= 0 && head != "x = " => {
                case.discarded = true;
                return Ok(());
            }
            _ => (),
        }
        if depth < 0 && head != "x = " && head != "OUT " {
            case.discarded = true;
            return Ok(());
        }
    }
    case.nontrivial = t.len() >= 3;
    let ok = recognize(&t).is_some_and(|rest| rest.is_empty());
    case.label(if ok { "well-formed expression" } else { "malformed expression" });
    let r = Sut::new().compile(&case.text);
    match (ok, r) {
        (true, Err(e)) => Err(format!("well-formed expression is rejected: {}", e.text)),
        (false, Ok(())) => Err("malformed expression is accepted".to_owned()),
        (false, Err(e)) if e.pos().map(|p| p.0) != Some(2) => {
            Err(format!("error is not at the line of the expression: {}", e.text))
        }
        _ => Ok(()),
    }
}

const LINES: [&str; 37] = [
    "OUT 1", "IF FALSE THEN", "ELSEIF TRUE THEN", "ELSE", "END IF", "FOR i = 1 TO 2", "NEXT",
    "WHILE FALSE", "WEND", "DO", "DO WHILE FALSE", "DO UNTIL TRUE", "LOOP", "LOOP WHILE FALSE",
    "LOOP UNTIL TRUE", "SELECT CASE 1", "CASE 1", "CASE 2 TO 3, IS > 5", "CASE ELSE",
    "END SELECT", "SUB", "END SUB", "FUNCTION", "END FUNCTION", "EXIT FOR", "EXIT DO", "EXIT SUB",
    "EXIT FUNCTION", "END", "IF TRUE THEN OUT 1 ELSE OUT 2", "IF TRUE THEN EXIT DO", "GOSUB @l",
    "END 3", "", "x = 1: x = 2", "IF TRUE THEN OUT 1", "IF TRUE THEN EXIT FOR ELSE EXIT DO",
];

fn gen_lines(s: &mut Src, depth: usize, callable: Option<bool>, out: &mut Vec<&'static str>) {
    for _ in 0..s.range(1, 3) {
        match if depth == 0 { s.idx(3) } else { s.idx(9) } {
            0 | 1 => out.push(s.pick(&["OUT 1", "END", "END 3", "", "x = 1: x = 2", LINES[29], LINES[35]])),
            2 => out.push(match callable {
                Some(true) => "EXIT FUNCTION",
                Some(false) => "EXIT SUB",
                None => "GOSUB @l",
            }),
            3 => {
                out.push("IF FALSE THEN");
                gen_lines(s, depth - 1, callable, out);
                while s.chance(1, 3) {
                    out.push("ELSEIF TRUE THEN");
                    gen_lines(s, depth - 1, callable, out);
                }
                if s.chance(1, 2) {
                    out.push("ELSE");
                    gen_lines(s, depth - 1, callable, out);
                }
                out.push("END IF");
            }
            4 => {
                out.push("FOR i = 1 TO 2");
                gen_lines(s, depth - 1, callable, out);
                if s.chance(1, 3) {
                    out.push("EXIT FOR");
                }
                out.push("NEXT");
            }
            5 => {
                out.push("WHILE FALSE");
                gen_lines(s, depth - 1, callable, out);
                out.push("WEND");
            }
            6 => {
                let pre = *s.pick(&["DO", "DO WHILE FALSE", "DO UNTIL TRUE"]);
                out.push(pre);
                gen_lines(s, depth - 1, callable, out);
                if s.chance(1, 3) {
                    out.push(s.pick(&["EXIT DO", "IF TRUE THEN EXIT DO"]));
                }
                out.push(if pre == "DO" {
                    s.pick(&["LOOP", "LOOP WHILE FALSE", "LOOP UNTIL TRUE"])
                } else {
                    "LOOP"
                });
            }
            7 => {
                out.push("SELECT CASE 1");
                while s.chance(1, 2) {
                    out.push(s.pick(&["CASE 1", "CASE 2 TO 3, IS > 5"]));
                    gen_lines(s, depth - 1, callable, out);
                }
                if s.chance(1, 2) {
                    out.push("CASE ELSE");
                    gen_lines(s, depth - 1, callable, out);
                }
                out.push("END SELECT");
            }
            _ => {
                if callable.is_none() {
                    let f = s.chance(1, 2);
                    out.push(if f { "FUNCTION" } else { "SUB" });
                    gen_lines(s, depth - 1, Some(f), out);
                    out.push(if f { "END FUNCTION" } else { "END SUB" });
                } else {
                    out.push("OUT 1");
                }
            }
        }
    }
}

/// Whether the lines are properly nested; `None` if unspecified.
fn nested(lines: &[&str]) -> Option<bool> {
    #[derive(PartialEq)]
    enum B {
        If(bool),
        For,
        While,
        Do(bool),
        Select(usize, bool),
        Callable(bool),
    }
    let mut st: Vec<B> = vec![];
    let mut unspecified = false;
    for l in lines {
        let is_case = l.starts_with("CASE") || *l == "END SELECT" || l.is_empty();
        if matches!(st.last(), Some(B::Select(0, _))) && !is_case {
            return Some(false);
        }
        let inside = |want: &B| {
            st.iter().rev().take_while(|b| !matches!(b, B::Callable(_))).any(|b| match want {
                B::For => *b == B::For,
                _ => matches!(b, B::Do(_)),
            })
        };
        let callable = st.iter().find_map(|b| if let B::Callable(f) = b { Some(*f) } else { None });
        let ok = match *l {
            "IF FALSE THEN" => {
                st.push(B::If(false));
                true
            }
            "ELSEIF TRUE THEN" => matches!(st.last(), Some(B::If(false))),
            "ELSE" => match st.last_mut() {
                Some(B::If(e)) if !*e => {
                    *e = true;
                    true
                }
                _ => false,
            },
            "END IF" => matches!(st.pop(), Some(B::If(_))),
            "FOR i = 1 TO 2" => {
                st.push(B::For);
                true
            }
            "NEXT" => st.pop() == Some(B::For),
            "WHILE FALSE" => {
                st.push(B::While);
                true
            }
            "WEND" => st.pop() == Some(B::While),
            "DO" | "DO WHILE FALSE" | "DO UNTIL TRUE" => {
                st.push(B::Do(*l != "DO"));
                true
            }
            "LOOP" => matches!(st.pop(), Some(B::Do(_))),
            "LOOP WHILE FALSE" | "LOOP UNTIL TRUE" => st.pop() == Some(B::Do(false)),
            "SELECT CASE 1" => {
                st.push(B::Select(0, false));
                true
            }
            "CASE 1" | "CASE 2 TO 3, IS > 5" | "CASE ELSE" => match st.last_mut() {
                Some(B::Select(n, e)) if !*e => {
                    *n += 1;
                    *e = *l == "CASE ELSE";
                    true
                }
                _ => false,
            },
            "END SELECT" => matches!(st.pop(), Some(B::Select(..))),
            "SUB" | "FUNCTION" => {
                let ok = callable.is_none();
                st.push(B::Callable(*l == "FUNCTION"));
                ok
            }
            "END SUB" => st.pop() == Some(B::Callable(false)),
            "END FUNCTION" => st.pop() == Some(B::Callable(true)),
            "EXIT FOR" => inside(&B::For),
            "EXIT DO" | "IF TRUE THEN EXIT DO" => inside(&B::Do(false)),
            "IF TRUE THEN EXIT FOR ELSE EXIT DO" => inside(&B::For) && inside(&B::Do(false)),
            "EXIT SUB" => callable == Some(false),
            "EXIT FUNCTION" => callable == Some(true),
            "GOSUB @l" => {
                // Labels are not visible across callables.
                unspecified |= callable.is_some();
                true
            }
            _ => true,
        };
        if !ok {
            return Some(false);
        }
    }
    if !st.is_empty() {
        return Some(false);
    }
    if unspecified { None } else { Some(true) }
}

/// Programs are accepted if and only if their blocks are properly nested.
fn block_grammar(s: &mut Src, case: &mut Case) -> CaseResult {
    let mut lines = vec![];
    gen_lines(s, 3, None, &mut lines);
    for _ in 0..s.weighted(&[2, 3, 1]) {
        let i = s.idx(lines.len());
        match s.idx(5) {
            0 if lines.len() > 1 => {
                lines.remove(i);
            }
            1 | 2 => lines.insert(i, *s.pick(&LINES)),
            3 => {
                let j = s.idx(lines.len());
                lines.swap(i, j);
            }
            _ => lines[i] = *s.pick(&LINES),
        }
    }
    let mut text = String::new();
    let mut indent = s.chance(1, 4);
    for (i, l) in lines.iter().enumerate() {
        if indent && i % 3 == 0 {
            text.push_str("  ");
        }
        match *l {
            "SUB" => text += &format!("SUB s{}", i),
            "FUNCTION" => text += &format!("FUNCTION f{}", i),
            l => text += l,
        }
        text.push('\n');
        if indent && i % 7 == 0 {
            text.push_str("' c\n\n");
        }
    }
    indent = false;
    let _ = indent;
    text.push_str("END\n@l: RETURN\n");
    case.set_text(text);
    case.nontrivial = lines.len() >= 4;
    let Some(ok) = nested(&lines) else {
        case.discarded = true;
        return Ok(());
    };
    case.label(if ok { "proper nesting" } else { "improper nesting" });
    match (ok, Sut::new().compile(&case.text)) {
        (true, Err(e)) => Err(format!("properly nested program is rejected: {}", e.text)),
        (false, Ok(())) => Err("improperly nested program is accepted".to_owned()),
        _ => Ok(()),
    }
}

pub fn robust(s: &mut Src, case: &mut Case) -> CaseResult {
    match s.weighted(&[8, 2, 2]) {
        1 => return expr_grammar(s, case),
        2 => return block_grammar(s, case),
        _ => (),
    }
    let t = arbitrary_text(s, case);
    case.set_text(t);
    let t = &case.text.clone();
    let mut a = Sut::new();
    let before = a.image.disasm();
    let r = guarded(|| a.compile(t)).map_err(|p| format!("compiler panicked: {}", p))?;
    let mut b = Sut::new();
    let r2 = b.compile(t);
    if r != r2 {
        return Err(format!("compiling twice differs: {:?} vs. {:?}", r, r2));
    }
    if a.image.disasm() != b.image.disasm() {
        return Err("compiling twice yields different images".to_owned());
    }
    match &r {
        Ok(()) => case.label("accepted"),
        Err(e) => {
            case.label("rejected");
            if a.image.disasm() != before {
                return Err("rejected program changed the image".to_owned());
            }
            let Some((line, col)) = e.pos() else {
                return Err(format!("no position in the error {:?}", e.text));
            };
            // Lines as the reader sees them; one past the end is the end of file.
            let mut lines: Vec<&str> = t.split('\n').collect();
            lines.push("");
            if line == 0 || line > lines.len() {
                return Err(format!("error {:?} is beyond line {}", e.text, lines.len()));
            }
            let w: usize = {
                let mut col = 1;
                for c in lines[line - 1].chars() {
                    col = if c == '\t' { (col - 1) / 8 * 8 + 9 } else { col + 1 };
                }
                col
            };
            if col == 0 || col > w + 1 {
                return Err(format!("error {:?} is beyond the line's {} columns", e.text, w));
            }
            // The compiler must remain usable.
            a.compile("OUT 5\n").map_err(|e| format!("unusable after rejection: {}", e.text))?;
            a.run(10)?;
            if a.take_out() != ["5%"] {
                return Err("wrong execution after rejection".to_owned());
            }
        }
    }
    case.nontrivial = t.len() > 8;
    Ok(())
}

// ---- C10: layout

pub fn layout(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        callables: s.chance(1, 2),
        jumps: s.chance(1, 2),
        data: true,
        err: *s.pick(&[ErrMode::Plain, ErrMode::Risky, ErrMode::ResumeNext]),
        contain: true,
        lasterr: false,
        stmts: s.range(1, 10) as usize,
        ..cfg()
    };
    let mut g = Gen::new(s, cfg);
    let mut prog = g.program();
    prog.push(St::new(Sk::CallSub("DATALIST".to_owned(), vec![])));
    let a = render(&prog);
    let m = match model(&prog[..prog.len() - 1], BUDGET) {
        Ok(m) => m,
        Err(_) => {
            case.discarded = true;
            return Ok(());
        }
    };
    // Redundant parentheses.
    let full = s.chance(1, 3);
    if full {
        each_ex(&mut prog, &mut |e| e.parens = true);
    }
    let b = render_free(&prog, s);
    let b = if s.chance(1, 6) { b.replace('\n', "\r\n") } else { b };
    let b = if s.chance(1, 6) { b.trim_end_matches('\n').to_owned() } else { b };
    case.set_text(format!("{}\n--- same as\n{}", a, b));
    let run = |t: &str| -> Result<(Stop, Vec<String>), String> {
        let mut sut = Sut::new();
        sut.compile(t).map_err(|e| format!("valid program rejected: {}", e.text))?;
        let stop = sut.run(BUDGET * 4)?;
        let stop = match stop {
            Stop::Exc(_, m) => Stop::Exc((0, 0), m),
            s => s,
        };
        Ok((stop, sut.take_out()))
    };
    let ra = run(&a)?;
    let rb = run(&b)?;
    let strip = |v: &[String]| v.iter().map(|l| strip_positions(l)).collect::<Vec<_>>();
    if let Some(d) = diff(&strip(&ra.1), &strip(&rb.1)) {
        return Err(format!("layout changes behavior: {}", d));
    }
    if ra.0 != rb.0 {
        return Err(format!("layout changes the result from {:?} to {:?}", ra.0, rb.0));
    }
    if full {
        case.label("fully parenthesized");
    }
    case.nontrivial = m.interp.out.len() >= 2 && a != b;
    Ok(())
}

// ---- C08: control by the host

const INFINITE: [&str; 8] = [
    "@inf\nGOTO @inf\n",
    "WHILE TRUE\nWEND\n",
    "DO\nLOOP\n",
    "DO\ninfv = 3\nLOOP UNTIL infv = 4\n",
    "FOR inff = 0 TO 1\ninff = inff - 1\nNEXT\n",
    "DO WHILE TRUE\nOUT \"x\"\nLOOP\n",
    "@inf2\nGOSUB @inf3\nGOTO @inf2\n@inf3\nRETURN\n",
    "infw = 0\nWHILE infw < 10\ninfw = (infw + 1) MOD 3\nWEND\n",
];

pub fn host_control(s: &mut Src, case: &mut Case) -> CaseResult {
    let callables = s.chance(1, 2);
    let base = Cfg {
        callables,
        jumps: s.chance(1, 2),
        expr_depth: 2,
        err: *s.pick(&[ErrMode::Plain, ErrMode::Risky, ErrMode::ResumeNext, ErrMode::Handler]),
        contain: true,
        end_stmt: s.chance(1, 4),
        stmts: s.range(2, 9) as usize,
        ..cfg()
    };
    let mut g = Gen::new(s, base);
    let mut rs = Resolver::new();
    let prog = g.program();
    let text = render(&prog);
    let mut sut = Sut::with(true, Limits::default(), &[]);
    let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
    let mut interp = Interp::new(BUDGET, 4096);
    let stop = match interp.exec(&rs, start) {
        Ok(s) => s,
        Err(e) => {
            if e != "budget" {
                panic!("harness: {}", e);
            }
            case.discarded = true;
            return Ok(());
        }
    };
    let infinite = g.s.chance(1, 3);
    let suffix = if infinite { *g.s.pick(&INFINITE) } else { "" };
    let full_text = format!("{}{}", text, if stop == Stop::Eof { suffix } else { "" });
    let infinite = infinite && stop == Stop::Eof;
    // Where the host interrupts: number of times that the VM returns control.
    let cut = if infinite {
        Some(g.s.below(400))
    } else if g.s.chance(2, 3) {
        Some(g.s.below(30))
    } else {
        None
    };
    let next = g.s.below(4);
    // Machines that are reset need not be interrupted first.
    let interrupt = !(next == 0 || (next == 1 && !infinite)) || g.s.chance(1, 2);
    // Dropping an upcall is different from interrupting at it.
    let mut shown = format!("{}--- interrupted at {:?}\n", full_text, cut);
    case.set_text(shown.clone());
    sut.compile(&full_text).map_err(|e| format!("valid program rejected: {}", e.text))?;
    let mut n = 0;
    let mut finished = None;
    let limit = BUDGET * 40;
    loop {
        if Some(n) == cut {
            if interrupt {
                sut.vm.interrupt(&sut.image);
            }
            break;
        }
        n += 1;
        if n > limit {
            return Err("program does not terminate".to_owned());
        }
        match sut.vm.exec(&sut.image) {
            StopReason::End(c) => finished = Some(Stop::End(c.to_i32())),
            StopReason::Eof => finished = Some(Stop::Eof),
            StopReason::Exception(p, m) => finished = Some(Stop::Exc((p.line, p.col), m)),
            StopReason::UpcallAsync(h) => {
                if Some(n) == cut {
                    // The host abandons the pending upcall.
                    drop(h);
                } else if let Err(e) = block_on(h.invoke()) {
                    let (p, m) = e.parts();
                    finished = Some(Stop::Exc((p.line, p.col), m));
                }
            }
            StopReason::Yield => (),
        }
        if finished.is_some() {
            break;
        }
    }
    let out = sut.take_out();
    match finished {
        Some(f) => {
            if infinite {
                return Err(format!("endless program stopped with {}", show_stop(&f)));
            }
            if let Some(d) = diff(&interp.out, &out) {
                return Err(format!("with asynchronous upcalls: {}", d));
            }
            if f != stop {
                return Err(format!(
                    "with asynchronous upcalls: stopped with {}; expected {}",
                    show_stop(&f),
                    show_stop(&stop)
                ));
            }
        }
        None => {
            case.label(if infinite { "endless program interrupted" } else { "interrupted" });
            // Whatever was shown must be a prefix of the complete run.
            let n = out.len().min(interp.out.len());
            if out[..n] != interp.out[..n] || (!infinite && out.len() > n) {
                return Err("output before the interruption differs".to_owned());
            }
        }
    }
    match next {
        0 => {
            // The host resets the machine and loads another program, which knows nothing.
            drop(g);
            return after_reset(s, case, sut, shown);
        }
        1 if !infinite => {
            // The host restarts the same program.
            sut.vm.clear();
            sut.log.borrow_mut().ticks = 0;
            sut.take_out();
            case.label("restarted");
            shown += "--- restarted\n";
            case.set_text(shown);
            let got = sut.run(limit)?;
            let out = sut.take_out();
            if let Some(d) = diff(&interp.out, &out) {
                return Err(format!("restarted program: {}", d));
            }
            if got != stop {
                return Err(format!(
                    "restarted program stopped with {}; expected {}",
                    show_stop(&got),
                    show_stop(&stop)
                ));
            }
            case.nontrivial = interp.out.len() >= 2;
            return Ok(());
        }
        _ => (),
    }
    // Run something else, which must not notice.
    sut.vm.clear_error_handler();
    Resolver::clear_handler(&mut interp);
    sut.log.borrow_mut().ticks = 0;
    interp.reset_ticks();
    interp.add_budget(BUDGET);
    // Make the last error the same for both.
    let prog =
        vec![St::new(Sk::Out(vec![(Some(Ex::new(Ek::Call(Name::new("FAILI"), vec![Ex::int(-1)]))), OutSep::Short)]))];
    let text2 = render(&prog);
    let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
    let stop = interp.exec(&rs, start).map_err(|e| format!("harness: {}", e))?;
    sut.compile(&text2).map_err(|e| format!("valid program rejected: {}", e.text))?;
    let got = sut.run(10)?;
    if got != stop {
        return Err(format!(
            "failing program stopped with {}; expected {}",
            show_stop(&got),
            show_stop(&stop)
        ));
    }
    sut.take_out();
    interp.out.clear();
    g.forget();
    let stmts = g.s.range(2, 7) as usize;
    if g.cfg.err == ErrMode::Handler {
        g.cfg.err = ErrMode::Plain;
    }
    let prog = g.chunk(stmts);
    let text2 = render(&prog);
    shown += &text2;
    case.set_text(shown);
    let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
    interp.add_budget(BUDGET);
    let stop = match interp.exec(&rs, start) {
        Ok(s) => s,
        Err(e) => {
            if e != "budget" {
                panic!("harness: {}", e);
            }
            case.discarded = true;
            return Ok(());
        }
    };
    sut.compile(&text2).map_err(|e| format!("valid program rejected: {}", e.text))?;
    let got = sut.run(limit)?;
    let out = sut.take_out();
    if let Some(d) = diff(&interp.out, &out) {
        return Err(format!("second program: {}", d));
    }
    if got != stop {
        return Err(format!(
            "second program stopped with {}; expected {}",
            show_stop(&got),
            show_stop(&stop)
        ));
    }
    case.nontrivial = interp.out.len() >= 2;
    Ok(())
}

/// Second half of `host_control`: a machine that is reset is like a new one.
fn after_reset(s: &mut Src, case: &mut Case, mut sut: Sut, mut shown: String) -> CaseResult {
    sut.vm.reset();
    sut.log.borrow_mut().ticks = 0;
    sut.take_out();
    case.label("reset");
    let up = crate::sut::upcalls(&sut.log, true);
    sut.compiler = endbasic_core::Compiler::new(&up, &[]).expect("compiler");
    sut.image = endbasic_core::Image::default();
    let base = Cfg {
        callables: s.chance(1, 3),
        jumps: s.chance(1, 3),
        expr_depth: 2,
        err: *s.pick(&[ErrMode::Plain, ErrMode::Risky]),
        contain: false,
        stmts: s.range(1, 5) as usize,
        ..cfg()
    };
    let extra = s.below(4);
    let front = s.chance(1, 2);
    let mut g = Gen::new(s, base);
    let mut prog = g.program();
    let stmt = |e| St::new(Sk::Out(vec![(Some(e), OutSep::Short)]));
    let extra = match extra {
        0 => Some(St::new(Sk::Return)),
        1 => Some(stmt(Ex::new(Ek::Call(Name::new("FAILI"), vec![Ex::int(-1)])))),
        2 => Some(stmt(Ex::new(Ek::Call(Name::new("LASTERR"), vec![])))),
        _ => None,
    };
    let is_extra = extra.is_some();
    if let Some(e) = extra {
        if front {
            prog.insert(0, e);
        } else {
            prog.push(e);
        }
    }
    let text = render(&prog);
    shown += "--- reset\n";
    shown += &text;
    case.set_text(shown);
    let mut rs = Resolver::new();
    let mut interp = Interp::new(BUDGET, 4096);
    let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
    let stop = match interp.exec(&rs, start) {
        Ok(s) => s,
        Err(e) => {
            if e != "budget" {
                panic!("harness: {}", e);
            }
            case.discarded = true;
            return Ok(());
        }
    };
    sut.compile(&text).map_err(|e| format!("valid program rejected: {}", e.text))?;
    let got = sut.run(BUDGET * 40)?;
    let out = sut.take_out();
    if let Some(d) = diff(&interp.out, &out) {
        return Err(format!("after a reset: {}", d));
    }
    if got != stop {
        return Err(format!(
            "after a reset: stopped with {}; expected {}",
            show_stop(&got),
            show_stop(&stop)
        ));
    }
    case.nontrivial = is_extra || interp.out.len() >= 2;
    Ok(())
}

// ---- C09: host access to variables

fn datum(v: &Val) -> String {
    v.show()
}

/// Runs until the upcall of `snap` is pending and compares the variables; `old` are the program
/// variables that can be compared.
fn peek_at(
    sut: &mut Sut,
    rs: &Resolver,
    snap: &crate::lang::Snap,
    old: &[String],
) -> Result<usize, String> {
    let mut n = 0;
    loop {
        match sut.vm.exec(&sut.image) {
            StopReason::UpcallAsync(h) => {
                if n == snap.upcalls {
                    drop(h);
                    break;
                }
                n += 1;
                if block_on(h.invoke()).is_err() {
                    return Err("unexpected failure".to_owned());
                }
            }
            StopReason::Yield => (),
            _ => return Err(format!("stopped before host command {}", snap.upcalls)),
        }
    }
    let mut seen = 0;
    for (n, global, v) in rs.snap_vars(snap) {
        if !global && !old.iter().any(|o| o.eq_ignore_ascii_case(&n)) {
            continue;
        }
        seen += 1;
        let k = SymbolKey::from(n.as_str());
        match v {
            Ok(v) => {
                let r = if global {
                    sut.vm.get_global(&sut.image, &k)
                } else {
                    sut.vm.get_program(&sut.image, &k)
                };
                match r {
                    Ok(Some(d)) if show(&d) == datum(v) => (),
                    r => {
                        return Err(format!(
                            "during host command {}, {} is {:?}; expected {}",
                            snap.upcalls,
                            n,
                            r,
                            v.show()
                        ));
                    }
                }
            }
            Err(a) => {
                let mut subs = vec![0i32; a.dims.len()];
                loop {
                    let r = if global {
                        sut.vm.get_global_array(&sut.image, &k, &subs)
                    } else {
                        sut.vm.get_program_array(&sut.image, &k, &subs)
                    };
                    let v = &a.vals[a.index(&subs).unwrap()];
                    match r {
                        Ok(Some(d)) if show(&d) == datum(v) => (),
                        r => {
                            return Err(format!(
                                "during host command {}, {}{:?} is {:?}; expected {}",
                                snap.upcalls,
                                n,
                                subs,
                                r,
                                v.show()
                            ));
                        }
                    }
                    let mut i = 0;
                    while i < subs.len() {
                        subs[i] += 1;
                        if (subs[i] as usize) < a.dims[i] {
                            break;
                        }
                        subs[i] = 0;
                        i += 1;
                    }
                    if i == subs.len() {
                        break;
                    }
                }
            }
        }
    }
    Ok(seen)
}

pub fn host_access(s: &mut Src, case: &mut Case) -> CaseResult {
    let base = Cfg {
        callables: s.chance(2, 3),
        jumps: s.chance(1, 3),
        control: s.chance(2, 3),
        expr_depth: 2,
        stmts: 0,
        ..cfg()
    };
    // Predefined globals.
    use endbasic_core::{ExprType, GlobalDef, GlobalDefKind};
    let host: Vec<GlobalDef> = vec![
        GlobalDef {
            name: "host_i".to_owned(),
            kind: GlobalDefKind::Scalar {
                etype: ExprType::Integer,
                initial_value: Some(ConstantDatum::Integer(-7)),
            },
        },
        GlobalDef {
            name: "host_s".to_owned(),
            kind: GlobalDefKind::Scalar {
                etype: ExprType::Text,
                initial_value: Some(ConstantDatum::Text("héllo".to_owned())),
            },
        },
        GlobalDef {
            name: "host_d".to_owned(),
            kind: GlobalDefKind::Scalar { etype: ExprType::Double, initial_value: None },
        },
        GlobalDef {
            name: "host_a".to_owned(),
            kind: GlobalDefKind::Array { subtype: ExprType::Integer, dimensions: vec![2, 3] },
        },
    ];
    let with_host = s.chance(1, 3);
    // Whether the host also looks while the program waits for one of its commands.
    let peek = !with_host && s.chance(1, 2);
    let mut sut = Sut::with(peek, Limits::default(), if with_host { &host } else { &[] });
    let mut g = Gen::new(s, base);
    let mut rs = Resolver::new();
    let mut interp = Interp::new(BUDGET, 4096);
    let n = g.s.range(1, 4);
    let mut text = String::new();
    let mut seen = 0;
    let mut host_i = -7;
    for i in 0..n {
        // Temporaries may share registers with variables that are new in this chunk.
        let old: Vec<String> = rs
            .scalars(&interp, false)
            .into_iter()
            .map(|(n, _)| n)
            .chain(rs.arrays(&interp, false).into_iter().map(|(n, _)| n))
            .filter(|n| g.is_assigned(n))
            .collect();
        let stmts = g.s.range(1, 7) as usize;
        let callables = g.cfg.callables;
        g.cfg.callables = callables && i < 2;
        let prog = g.chunk(stmts);
        g.cfg.callables = callables;
        let chunk = render(&prog);
        let start = rs.chunk(&prog).map_err(|e| format!("harness: {}", e.msg))?;
        interp.upcalls = 0;
        interp.snap = None;
        interp.watch_nested = g.s.chance(2, 3);
        interp.watch = if peek { Some(g.s.below(if interp.watch_nested { 6 } else { 15 })) } else { None };
        let stop = match interp.exec(&rs, start) {
            Ok(s) => s,
            Err(e) => {
                if e != "budget" {
                    panic!("harness: {}", e);
                }
                case.discarded = true;
                return Ok(());
            }
        };
        if matches!(stop, Stop::Exc(..)) {
            // Variables under assignment have unspecified contents.
            case.discarded = true;
            return Ok(());
        }
        let mut tail = String::new();
        if with_host {
            tail = "host_i = host_i * 2 + 1\nhost_a(1, 2) = host_i\nhost_d = host_i\n".to_owned();
            host_i = host_i * 2 + 1;
        }
        text += &format!("{}{}---\n", chunk, tail);
        case.set_text(text.clone());
        sut.compile(&chunk).map_err(|e| format!("valid program rejected: {}", e.text))?;
        if let Some(snap) = &interp.snap {
            let n = peek_at(&mut sut, &rs, snap, &old)?;
            seen += n;
            if n > 0 {
                case.label(if snap.depth > 1 { "looked from a callable" } else { "looked from the program" });
            }
        }
        sut.run(BUDGET * 4)?;
        if with_host {
            sut.compile(&tail).map_err(|e| format!("valid program rejected: {}", e.text))?;
            sut.run(10)?;
            let get = |n: &str| sut.vm.get_global(&sut.image, &SymbolKey::from(n)).unwrap();
            if get("host_i") != Some(ConstantDatum::Integer(host_i)) {
                return Err(format!("host_i is {:?}", get("host_i")));
            }
            if get("HOST_d") != Some(ConstantDatum::Double(f64::from(host_i))) {
                return Err(format!("host_d is {:?}", get("host_d")));
            }
            if get("host_s") != Some(ConstantDatum::Text("héllo".to_owned())) {
                return Err(format!("host_s is {:?}", get("host_s")));
            }
            for x in 0..2 {
                for y in 0..3 {
                    let v = sut
                        .vm
                        .get_global_array(&sut.image, &SymbolKey::from("host_a"), &[x, y])
                        .unwrap();
                    let want = if (x, y) == (1, 2) { host_i } else { 0 };
                    if v != Some(ConstantDatum::Integer(want)) {
                        return Err(format!("host_a({}, {}) is {:?}", x, y, v));
                    }
                }
            }
        }
        for global in [true, false] {
            let scalar = |k: &SymbolKey| {
                if global {
                    sut.vm.get_global(&sut.image, k)
                } else {
                    sut.vm.get_program(&sut.image, k)
                }
            };
            let array = |k: &SymbolKey, s: &[i32]| {
                if global {
                    sut.vm.get_global_array(&sut.image, k, s)
                } else {
                    sut.vm.get_program_array(&sut.image, k, s)
                }
            };
            for (n, v) in rs.scalars(&interp, global) {
                if !global && !g.is_assigned(&n) {
                    continue;
                }
                // Keys are case insensitive.
                let k = SymbolKey::from(if g.s.chance(1, 2) { n.to_lowercase() } else { n.clone() });
                if let Some(v) = v {
                    seen += 1;
                    match scalar(&k) {
                        Ok(Some(d)) if show(&d) == datum(&v) => (),
                        r => return Err(format!("{} is {:?}; expected {}", n, r, v.show())),
                    }
                    if !matches!(array(&k, &[0]), Err(GetGlobalError::IsScalar(_))) {
                        return Err(format!("scalar {} can be read as an array", n));
                    }
                }
            }
            for (n, a) in rs.arrays(&interp, global) {
                if !global && !g.is_assigned(&n) {
                    continue;
                }
                let k = SymbolKey::from(n.as_str());
                let Some(a) = a else { continue };
                seen += 1;
                if !matches!(scalar(&k), Err(GetGlobalError::IsArray(_))) {
                    return Err(format!("array {} can be read as a scalar", n));
                }
                let mut subs = vec![0i32; a.dims.len()];
                'all: loop {
                    let v = &a.vals[a.index(&subs).unwrap()];
                    match array(&k, &subs) {
                        Ok(Some(d)) if show(&d) == datum(v) => (),
                        r => {
                            return Err(format!(
                                "{}{:?} is {:?}; expected {}",
                                n,
                                subs,
                                r,
                                v.show()
                            ));
                        }
                    }
                    for (i, s) in subs.iter_mut().enumerate() {
                        *s += 1;
                        if (*s as usize) < a.dims[i] {
                            continue 'all;
                        }
                        *s = 0;
                    }
                    break;
                }
                // Out of bounds.
                let i = g.s.idx(subs.len());
                subs[i] = if g.s.chance(1, 2) { -1 } else { a.dims[i] as i32 };
                if !matches!(array(&k, &subs), Err(GetGlobalError::SubscriptOutOfBounds(_))) {
                    return Err(format!("{}{:?} can be read out of bounds", n, subs));
                }
            }
            let k = SymbolKey::from("never_defined");
            if !matches!(scalar(&k), Ok(None)) || !matches!(array(&k, &[0]), Ok(None)) {
                return Err("a variable that does not exist has a value".to_owned());
            }
        }
        g.retain_assigned(&|n| rs.has_value(&interp, n));
        if stop != Stop::Eof {
            break;
        }
    }
    case.nontrivial = seen >= 3;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:expr, $quick:expr, $run:expr, $rule:expr) => {
            Prop { id: $id, rule: $rule, quick: $quick, thorough: $quick * 15, run: $run, assumptions: &[] }
        };
    }
    vec![
        p!("C01", 3_000_000, expressions, "Straight-line programs of nested expressions over all types, operators, literals, conversions, scalars and arrays (with boundary values), executed by the VM and by the reference interpreter. Non-trivial: the program is longer than 60 characters."),
        p!("C05", 250_000, incremental, "Sequences of 2 to 5 chunks compiled and executed one after another by one compiler, image and VM, against the reference interpreter holding its own state; before each chunk, damaged versions of it are submitted, which must be rejected without effect. Non-trivial: the model executed more than 10 instructions."),
        p!("C06", 1_500_000, robust, "Arbitrary text: random characters, random tokens, truncated programs and programs with damaged characters or tokens; the compiler must not panic, must be deterministic and, if it rejects the text, must report a position within the text, leave the image untouched and remain usable. Also sequences of tokens of expressions and of lines of block statements, mostly well-formed ones with one or two changes, which must be accepted if and only if a reference recognizer accepts them. Non-trivial: the text is longer than 8 bytes, or has 3 tokens or 4 lines."),
        p!("C07", 1_000_000, static_checks, "Valid programs with one random expression node replaced (operator, type annotation, literal, subscripts, undefined variable) or with a statement of random types inserted; the model's static checker decides acceptance and the exact error and position, and accepted programs must behave as in the model. Non-trivial: the program must be rejected."),
        p!("C08", 500_000, host_control, "Programs run with synchronous and asynchronous upcalls, with the host interrupting at a random point (or an endless program at any point), followed by a second program on the same machine. Non-trivial: the second program, which must match the model, shows at least two lines."),
        p!("C09", 500_000, host_access, "Chunks of code (with and without predefined globals) after which the host reads every definitely assigned program variable, global and array element, in any case, plus out of bounds and undefined ones, against the model. Non-trivial: at least three variables were compared."),
        p!("C10", 500_000, layout, "Valid programs rendered canonically and again with random layout: letter case, spacing, blank lines, comments, colons, line endings, redundant parentheses, REM, number bases; both must show the same output and stop in the same way. Non-trivial: the texts differ and at least two lines are shown."),
    ]
}
