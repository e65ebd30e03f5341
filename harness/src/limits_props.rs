//! C11: programs that exceed a resource limit are refused or stopped with the error that says so,
//! those within the limits are not affected by them, and the machine remains usable.

use crate::core_props::{BUDGET, diff, show_stop};
use crate::engine::{Case, CaseResult, Prop, Src};
use crate::r#gen::*;
use crate::lang::*;
use crate::sut::*;
use async_trait::async_trait;
use endbasic_core::*;
use std::fmt::Write;
use std::rc::Rc;

const NO_STACK: &str = "Out of call stack space";
const NO_HEAP: &str = "Out of heap space";

/// Registers available to the variables, arguments and temporaries of a callable.
const LOCALS: usize = 192;
/// Registers available to shared variables.
const GLOBALS: usize = 64;

fn limits(stack: usize, heap: u32) -> Limits {
    Limits { max_call_stack: stack, max_heap_entries: U24::try_from(heap).expect("24 bits") }
}

/// Programs with a limited call stack behave as the model, which counts calls.
fn stack(s: &mut Src, case: &mut Case) -> CaseResult {
    let max = s.range(0, 9) as usize;
    let err = *s.pick(&[ErrMode::Plain, ErrMode::ResumeNext, ErrMode::Handler]);
    let cfg = Cfg {
        control: s.chance(2, 3),
        jumps: s.chance(2, 3),
        callables: true,
        arrays: true,
        err,
        contain: err != ErrMode::Plain,
        stmts: s.range(3, 20) as usize,
        expr_depth: 3,
        end_stmt: false,
        data: false,
        lasterr: true,
    };
    let mut g = Gen::new(s, cfg);
    let prog = g.program();
    case.set_text(format!("' Call stack of {}\n{}", max, render(&prog)));
    let text = render(&prog);
    let mut rs = Resolver::new();
    let start = match rs.chunk(&prog) {
        Ok(v) => v,
        Err(e) => panic!("harness: compile {}:{}: {}", e.pos.0, e.pos.1, e.msg),
    };
    let mut interp = Interp::new(BUDGET, max);
    interp.forget_failed = true;
    let want = match interp.exec(&rs, start) {
        Ok(v) => v,
        Err(_) => {
            case.discarded = true;
            return Ok(());
        }
    };
    let overflowed = interp.overflows > 0;
    case.label(if overflowed { "call stack exceeded" } else { "call stack suffices" });
    if overflowed && interp.handled > 0 {
        case.label("call stack exceeded and caught");
    }
    case.nontrivial = overflowed || interp.calls > 0;
    let mut sut = Sut::with(false, limits(max, 1 << 23), &[]);
    if let Err(e) = sut.compile(&text) {
        return Err(format!("valid program rejected: {}", e.text));
    }
    let stop = sut.run(BUDGET * 4)?;
    if let Some(d) = diff(&interp.out, &sut.take_out()) {
        return Err(format!("{} (stop: {}; expected {})", d, show_stop(&stop), show_stop(&want)));
    }
    if stop != want {
        return Err(format!("stopped with {}; expected {}", show_stop(&stop), show_stop(&want)));
    }
    // All of the stack is available again once a program stops.
    let mut more = String::new();
    for i in 0..=max {
        if i < max {
            writeln!(more, "SUB zz{}\nzz{}\nEND SUB", i, i + 1).unwrap();
        } else {
            writeln!(more, "SUB zz{}\nOUT \"deep\"\nEND SUB", i).unwrap();
        }
    }
    let mut decl = String::new();
    for i in 0..=max {
        writeln!(decl, "DECLARE SUB zz{}", i).unwrap();
    }
    let depth = max + 1;
    let fits = s.chance(1, 2);
    if fits && max == 0 {
        return Ok(());
    }
    let text = format!("ON ERROR GOTO 0\n{}{}OUT \"first\"\nzz{}\nOUT \"last\"\n", decl, more, if fits { 1 } else { 0 });
    let _ = depth;
    if let Err(e) = sut.compile(&text) {
        return Err(format!("second program rejected: {}", e.text));
    }
    let stop = sut.run(BUDGET)?;
    let got = sut.take_out();
    let ok = if fits {
        stop == Stop::Eof && got == ["\"first\"$", "\"deep\"$", "\"last\"$"]
    } else {
        matches!(&stop, Stop::Exc(_, m) if m == NO_STACK) && got == ["\"first\"$"]
    };
    if !ok {
        return Err(format!(
            "second program: {} calls on a stack of {} stop with {} after {:?}",
            if fits { max } else { max + 1 },
            max,
            show_stop(&stop),
            got
        ));
    }
    Ok(())
}

/// Runs `text` with a heap of `heap` entries.
fn run_heap(text: &str, heap: u32) -> Result<(Sut, Stop, Vec<String>), String> {
    let mut sut = Sut::with(false, limits(4096, heap), &[]);
    if let Err(e) = sut.compile(text) {
        return Err(format!("valid program rejected: {}", e.text));
    }
    let stop = sut.run(BUDGET * 4)?;
    let out = sut.take_out();
    Ok((sut, stop, out))
}

/// Programs with a limited heap show a prefix of what they otherwise show.
fn heap(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        control: s.chance(2, 3),
        jumps: s.chance(1, 3),
        callables: s.chance(1, 2),
        arrays: true,
        err: ErrMode::Plain,
        contain: false,
        stmts: s.range(3, 16) as usize,
        expr_depth: 3,
        end_stmt: s.chance(1, 5),
        data: false,
        lasterr: false,
    };
    let mut g = Gen::new(s, cfg);
    let prog = g.program();
    let text = render(&prog);
    case.set_text(&text);
    let mut rs = Resolver::new();
    let start = match rs.chunk(&prog) {
        Ok(v) => v,
        Err(e) => panic!("harness: compile {}:{}: {}", e.pos.0, e.pos.1, e.msg),
    };
    let mut interp = Interp::new(BUDGET, 4096);
    let want = match interp.exec(&rs, start) {
        Ok(v) => v,
        Err(_) => {
            case.discarded = true;
            return Ok(());
        }
    };
    // Each step handles at most a few texts, so this is generous: more than this is a leak.
    let enough = (interp.steps as u32 + 1) * 64;
    let (_, stop, out) = run_heap(&text, enough)?;
    if let Some(d) = diff(&interp.out, &out) {
        return Err(format!("heap of {}: {} (stop: {})", enough, d, show_stop(&stop)));
    }
    if stop != want {
        return Err(format!("heap of {}: stopped with {}", enough, show_stop(&stop)));
    }
    // Find the least heap that suffices.
    let mut lo = 0; // Fails with these.
    let mut hi = enough; // Runs with these.
    let mut last_fail = 0;
    while hi > lo {
        let mid = if hi - lo > 40 { lo + (hi - lo) / 8 } else { (lo + hi) / 2 };
        let (mut sut, stop, out) = run_heap(&text, mid)?;
        if stop == want && out == interp.out {
            hi = mid;
            continue;
        }
        if !matches!(&stop, Stop::Exc(_, m) if m == NO_HEAP) {
            return Err(format!("heap of {}: stopped with {}; output {:?}", mid, show_stop(&stop), out));
        }
        if !interp.out.starts_with(&out) {
            return Err(format!("heap of {}: showed {:?}", mid, out));
        }
        if out.len() < last_fail {
            return Err(format!("heap of {}: got less far than with a smaller one", mid));
        }
        last_fail = out.len();
        // What needs no more heap still works, and everything does once cleared.
        sut.compile("ON ERROR GOTO 0\nzz = 3\nOUT zz + 1").map_err(|e| e.text)?;
        let stop = sut.run(100)?;
        if stop != Stop::Eof || sut.take_out() != ["4%"] {
            return Err(format!("heap of {}: machine stuck with {}", mid, show_stop(&stop)));
        }
        sut.vm.clear();
        sut.compile("zy$ = \"a\"\nOUT zy").map_err(|e| e.text)?;
        let again = sut.run(BUDGET * 4)?;
        let _ = again;
        sut.take_out();
        lo = mid + 1;
    }
    if lo > 1 {
        case.label("heap exceeded");
        case.nontrivial = true;
    } else {
        case.label("program without heap");
    }
    for h in [hi, hi + 1, hi + 1 + s.below(20) as u32] {
        let (_, stop, out) = run_heap(&text, h)?;
        if stop != want || out != interp.out {
            return Err(format!(
                "heap of {} does not suffice ({}) but {} did",
                h,
                show_stop(&stop),
                hi
            ));
        }
    }
    live_values(s, case)
}

/// A program never holds more arrays and computed texts at once than the heap has entries.
fn live_values(s: &mut Src, case: &mut Case) -> CaseResult {
    let n = s.range(2, 60) as u32;
    let max = s.range(1, n as i64 - 1) as u32;
    let mut text = "a$ = \"x\"\n".to_owned();
    let mut check = "OUT ".to_owned();
    for i in 0..n {
        match s.below(4) {
            0 => writeln!(text, "DIM v{}({}) AS INTEGER\nv{}(0) = {}", i, s.range(1, 9), i, i).unwrap(),
            1 => writeln!(text, "DIM v{}(1) AS STRING\nv{}(0) = a", i, i).unwrap(),
            _ => writeln!(text, "v{} = a + \"{}\"", i, i).unwrap(),
        }
        if i == 0 {
            check += if text.contains("v0(") { "v0(0)" } else { "v0" };
        }
    }
    let (_, stop, out) = run_heap(&format!("{}{}\n", text, check), max)?;
    if !matches!(&stop, Stop::Exc(_, m) if m == NO_HEAP) || !out.is_empty() {
        case.set_text(format!("' Heap of {} entries\n{}{}", max, text, check));
        return Err(format!("{} values on a heap of {}: {} after {:?}", n, max, show_stop(&stop), out));
    }
    let (_, stop, out) = run_heap(&format!("{}{}\n", text, check), n * 8)?;
    if stop != Stop::Eof || out.len() != 1 {
        case.set_text(format!("' Heap of {} entries\n{}{}", n * 8, text, check));
        return Err(format!("{} values on a heap of {}: {} after {:?}", n, n * 8, show_stop(&stop), out));
    }
    Ok(())
}

/// What compiling has to result in.
#[derive(Clone, Debug)]
enum Want {
    Runs(Vec<String>),
    /// Rejected with an error whose text, after the position, starts and ends like this, in a line
    /// within this range.
    Rejected(&'static str, &'static str, usize, usize),
    /// Either: the exact limit depends on the code generated.
    Either(Vec<String>, &'static str, &'static str),
}

fn check(sut: &mut Sut, text: &str, want: &Want, probe: &[(String, String)]) -> CaseResult {
    let nlines = text.lines().count();
    let before = sut.image.disasm().len();
    match (sut.compile(text), want) {
        (Ok(()), Want::Rejected(a, b, ..)) => {
            return Err(format!("accepted, but expected rejection with {}...{}", a, b));
        }
        (Ok(()), Want::Runs(out) | Want::Either(out, ..)) => {
            let stop = sut.run(1_000_000)?;
            let got = sut.take_out();
            if let Some(d) = diff(out, &got) {
                return Err(format!("{} (stop: {})", d, show_stop(&stop)));
            }
            if stop != Stop::Eof {
                return Err(format!("stopped with {}", show_stop(&stop)));
            }
        }
        (Err(e), Want::Runs(..)) => return Err(format!("within limits but rejected: {}", e.text)),
        (Err(e), Want::Rejected(a, b, ..) | Want::Either(_, a, b)) => {
            let (from, to) = match want {
                Want::Rejected(_, _, from, to) => (*from, *to),
                _ => (1, nlines),
            };
            let Some(pos) = e.pos() else { return Err(format!("error without position: {}", e.text)) };
            let msg = e.text.splitn(3, ':').nth(2).unwrap_or("").trim_start();
            if !msg.starts_with(a) || !msg.ends_with(b) {
                return Err(format!("rejected with {}; expected {}...{}", e.text, a, b));
            }
            if pos.0 < from || pos.0 > to {
                return Err(format!("{} is not within lines {} to {}", e.text, from, to));
            }
            let len = text.lines().nth(pos.0 - 1).map(|l| l.chars().count()).unwrap_or(0);
            if pos.1 == 0 || pos.1 > len + 1 {
                return Err(format!("{} is out of its line of {} columns", e.text, len));
            }
            if sut.image.disasm().len() != before {
                return Err("rejection modified the image".to_owned());
            }
        }
    }
    // The session goes on.
    for (text, out) in probe {
        sut.compile(text).map_err(|e| format!("afterwards, {} is rejected: {}", text, e.text))?;
        let stop = sut.run(100)?;
        let got = sut.take_out();
        if stop != Stop::Eof || got != [out.as_str()] {
            return Err(format!(
                "afterwards, {} shows {:?} and stops with {}",
                text,
                got,
                show_stop(&stop)
            ));
        }
    }
    Ok(())
}

fn value(i: usize, ty: usize) -> (String, String) {
    match ty {
        0 => (format!("{}", i * 7 + 1), format!("{}%", i * 7 + 1)),
        1 => (format!("{}.5", i), format!("{}.5#", i)),
        2 => (format!("\"t{}\"", i), format!("\"t{}\"$", i)),
        _ => (if i % 2 == 0 { "FALSE" } else { "TRUE" }.to_owned(), format!("{}?", i % 2 == 1)),
    }
}

const SIGILS: [&str; 4] = ["%", "#", "$", "?"];

/// Local variables up to and over the limit, at top level or in callables, after others.
fn locals(s: &mut Src, case: &mut Case) -> CaseResult {
    let kind = s.idx(3);
    let near = s.chance(2, 3);
    let n = if near { s.range(180, 200) } else { s.range(1, 250) } as usize;
    let earlier = if kind == 0 && s.chance(1, 2) { s.idx(n) } else { 0 };
    let nparams = if kind != 0 && s.chance(1, 2) { s.idx(n.min(60) + 1) } else { 0 };
    let dim = s.chance(1, 3);
    let mut vars = vec![];
    for i in 0..n {
        let ty = s.idx(4);
        let (src, shown) = value(i, ty);
        vars.push((format!("v{}", i), ty, src, shown));
    }
    let mut show: Vec<usize> = (0..4).map(|_| s.idx(n)).collect();
    show.push(0);
    show.push(n - 1);
    let mut text = String::new();
    let mut line_of = vec![0; n];
    let mut line = 1;
    if kind != 0 {
        let params: Vec<String> =
            vars[..nparams].iter().map(|v| format!("{}{}", v.0, SIGILS[v.1])).collect();
        let name = if kind == 1 { "SUB s" } else { "FUNCTION f%" };
        if nparams > 0 {
            writeln!(text, "{}({})", name, params.join(", ")).unwrap();
        } else {
            writeln!(text, "{}", name).unwrap();
        }
        line_of.iter_mut().take(nparams).for_each(|l| *l = 1);
        line = 2;
    }
    for i in earlier.max(nparams)..n {
        let (name, ty, src, _) = &vars[i];
        line_of[i] = line;
        if dim {
            let tn = ["INTEGER", "DOUBLE", "STRING", "BOOLEAN"][*ty];
            writeln!(text, "DIM {} AS {}: {} = {}", name, tn, name, src).unwrap();
        } else {
            writeln!(text, "{}{} = {}", name, SIGILS[*ty], src).unwrap();
        }
        line += 1;
    }
    let mut out = vec![];
    for i in &show {
        writeln!(text, "OUT {}", vars[*i].0).unwrap();
        out.push(vars[*i].3.clone());
    }
    let args: Vec<String> = vars[..nparams].iter().map(|v| v.2.clone()).collect();
    match kind {
        1 => writeln!(text, "END SUB\ns {}", args.join(", ")).unwrap(),
        2 => {
            writeln!(text, "END FUNCTION").unwrap();
            if nparams > 0 {
                writeln!(text, "OUT f({})", args.join(", ")).unwrap();
            } else {
                writeln!(text, "OUT f").unwrap();
            }
            out.push("0%".to_owned());
        }
        _ => (),
    }
    // Each statement needs a couple of registers more for its arguments.
    let used = n + usize::from(kind == 2);
    let want = if used + 6 <= LOCALS {
        case.label("locals within the limit");
        Want::Runs(out)
    } else if used > LOCALS {
        case.label("locals over the limit");
        case.nontrivial = true;
        let first = LOCALS - 6 - usize::from(kind == 2);
        Want::Rejected("Out of ", " registers", line_of[first.min(n - 1)].max(1), line_of[(LOCALS - usize::from(kind == 2)).min(n - 1)])
    } else {
        case.label("locals around the limit");
        case.nontrivial = true;
        Want::Either(out, "Out of ", " registers")
    };
    let mut sut = Sut::new();
    let mut first = String::new();
    for v in &vars[..earlier] {
        writeln!(first, "{}{} = {}", v.0, SIGILS[v.1], v.2).unwrap();
    }
    case.set_text(format!("{}---\n{}", first, text));
    let mut probe = vec![];
    if earlier > 0 {
        let fits = earlier + 6 <= LOCALS;
        let w = if fits {
            Want::Runs(vec![])
        } else {
            Want::Either(vec![], "Out of ", " registers")
        };
        check(&mut sut, &first, &w, &[])?;
        if !fits {
            return Ok(());
        }
        let i = s.idx(earlier);
        probe.push((format!("OUT {}", vars[i].0), vars[i].3.clone()));
    } else if kind != 0 {
        probe.push(("after% = 5: OUT after + 1".to_owned(), "6%".to_owned()));
    }
    check(&mut sut, &text, &want, &probe)
}

/// Shared variables up to and over the limit, some of them defined by the host.
fn globals(s: &mut Src, case: &mut Case) -> CaseResult {
    let n = if s.chance(3, 4) { s.range(60, 68) } else { s.range(1, 100) } as usize;
    let nhost = if s.chance(1, 2) { s.idx(n.min(20)) } else { 0 };
    let earlier = if s.chance(1, 2) { s.idx(n.min(GLOBALS) - nhost) } else { 0 };
    let mut defs = vec![];
    let mut vars = vec![];
    for i in 0..n {
        let ty = s.idx(4);
        let (src, shown) = value(i, ty);
        let array = s.chance(1, 5);
        vars.push((format!("g{}", i), ty, src, shown, array));
    }
    for v in &vars[..nhost] {
        let etype = [ExprType::Integer, ExprType::Double, ExprType::Text, ExprType::Boolean][v.1];
        defs.push(GlobalDef {
            name: v.0.clone(),
            kind: if v.4 {
                GlobalDefKind::Array { subtype: etype, dimensions: vec![2, 3] }
            } else {
                GlobalDefKind::Scalar { etype, initial_value: None }
            },
        });
    }
    let access = |v: &(String, usize, String, String, bool)| {
        if v.4 { format!("{}(1, 2)", v.0) } else { v.0.clone() }
    };
    let decl = |v: &(String, usize, String, String, bool)| {
        let tn = ["INTEGER", "DOUBLE", "STRING", "BOOLEAN"][v.1];
        let dims = if v.4 { "(2, 3)" } else { "" };
        format!("DIM SHARED {}{} AS {}: {} = {}\n", v.0, dims, tn, access(v), v.2)
    };
    let mut sut = Sut::with(false, Limits::default(), &defs);
    let mut first = String::new();
    for v in &vars[..nhost] {
        writeln!(first, "{} = {}", access(v), v.2).unwrap();
    }
    for v in &vars[nhost..nhost + earlier] {
        first.push_str(&decl(v));
    }
    let mut text = String::new();
    for v in &vars[nhost + earlier..] {
        text.push_str(&decl(v));
    }
    let mut out = vec![];
    text.push_str("SUB show\n");
    for _ in 0..4 {
        let v = &vars[s.idx(n)];
        writeln!(text, "OUT {}", access(v)).unwrap();
        out.push(v.3.clone());
    }
    writeln!(text, "OUT {}\nEND SUB\nshow", access(&vars[n - 1])).unwrap();
    out.push(vars[n - 1].3.clone());
    case.set_text(format!("' Host defines {} variables\n{}---\n{}", nhost, first, text));
    case.nontrivial = n > 50;
    check(&mut sut, &first, &Want::Runs(vec![]), &[])?;
    let mut probe = vec![];
    if nhost + earlier > 0 {
        let v = &vars[s.idx(nhost + earlier)];
        probe.push((format!("OUT {}", access(v)), v.3.clone()));
    }
    let want = if n <= GLOBALS {
        case.label("globals within the limit");
        Want::Runs(out)
    } else {
        case.label("globals over the limit");
        let line = GLOBALS - nhost - earlier + 1;
        Want::Rejected("Out of global registers", "", line, line)
    };
    check(&mut sut, &text, &want, &probe)
}

/// Deep expressions, long argument lists and arrays of many dimensions.
fn temps(s: &mut Src, case: &mut Case) -> CaseResult {
    let nlocals = if s.chance(1, 2) { 0 } else { s.idx(100) };
    let mut first = String::new();
    for i in 0..nlocals {
        writeln!(first, "v{} = {}", i, i * 3).unwrap();
    }
    let mut sut = Sut::new();
    check(&mut sut, &first, &Want::Runs(vec![]), &[])?;
    let mut probe = vec![];
    if nlocals > 0 {
        let i = s.idx(nlocals);
        probe.push((format!("OUT v{}", i), format!("{}%", i * 3)));
    }
    let free = LOCALS - nlocals;
    let near = s.chance(2, 3);
    let (text, need, out) = match s.idx(5) {
        0 => {
            case.label("deep expression");
            let n = if near { s.range(free as i64 - 8, free as i64 + 8) } else { s.range(1, 250) } as usize;
            let mut t = String::from("OUT ");
            let mut want = 0;
            for i in 0..n {
                write!(t, "{} + (", i).unwrap();
                want += i as i32;
            }
            t.push('1');
            t.push_str(&")".repeat(n));
            t.push('\n');
            (t, n, format!("{}%", want + 1))
        }
        1 => {
            case.label("deep calls");
            let n = if near { s.range(free as i64 / 2 - 8, free as i64 / 2 + 8) } else { s.range(1, 130) } as usize;
            let mut t = String::from("OUT ");
            for _ in 0..n {
                write!(t, "1 + TOTAL(").unwrap();
            }
            t.push('5');
            t.push_str(&")".repeat(n));
            t.push('\n');
            // How many registers a nested call takes is up to the compiler.
            let need = if n * 4 + 8 <= free { 0 } else if n > free { LOCALS * 4 } else { free };
            (t, need, format!("{}%", n + 5))
        }
        2 => {
            case.label("long argument list");
            let n = if near { s.range(free as i64 / 2 - 8, free as i64 / 2 + 8) } else { s.range(1, 130) } as usize;
            let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let o: Vec<String> = (0..n).map(|i| format!("{}%", i)).collect();
            (format!("OUT {}\n", v.join(", ")), n * 2, o.join(" , "))
        }
        3 => {
            case.label("long typed argument list");
            let n = if near { s.range(free as i64 - 8, free as i64 + 8) } else { s.range(1, 250) } as usize;
            let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            (format!("OUT TOTAL({})\n", v.join(", ")), n, format!("{}%", n * (n.max(1) - 1) / 2))
        }
        _ => {
            case.label("many dimensions");
            let n = s.range(1, 40) as usize;
            let dims: Vec<usize> = (0..n).map(|i| if i < 12 { 1 + s.idx(2) } else { 1 }).collect();
            let d: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
            let last: Vec<String> = dims.iter().map(|d| (d - 1).to_string()).collect();
            let zero = vec!["0"; n].join(", ");
            let shared = if s.chance(1, 2) { "SHARED " } else { "" };
            let all_one = dims.iter().all(|d| *d == 1);
            let t = format!(
                "DIM {}zz({}) AS INTEGER\nzz({}) = 7\nzz({}) = 9\nOUT zz({}), zz({})\n",
                shared,
                d.join(", "),
                zero,
                last.join(", "),
                zero,
                last.join(", ")
            );
            case.set_text(format!("{}---\n{}", first, t));
            case.nontrivial = n > 8;
            let out = format!("{}% , 9%", if all_one { 9 } else { 7 });
            let want = if n > 15 && n + 6 <= free {
                Want::Rejected("Array cannot have ", " dimensions", 1, 1)
            } else if n <= 15 && n * 2 + 10 <= free {
                Want::Runs(vec![out])
            } else {
                return Ok(());
            };
            return check(&mut sut, &t, &want, &probe);
        }
    };
    case.set_text(format!("{}---\n{}", first, text));
    case.nontrivial = need > 20;
    let want = if need + 8 <= free {
        Want::Runs(vec![out])
    } else if need > free {
        Want::Rejected("Out of ", " registers", 1, 1)
    } else {
        Want::Either(vec![out], "Out of ", " registers")
    };
    check(&mut sut, &text, &want, &probe)
}

/// Code that does not fit in the range of jumps.
fn far(s: &mut Src, case: &mut Case) -> CaseResult {
    let pad_before = s.chance(1, 2);
    let n = match s.idx(3) {
        0 => s.range(100, 2000),
        1 => s.range(60000, 64000),
        _ => s.range(65600, 70000),
    } as usize;
    let kind = s.idx(12);
    let (head, tail, out): (&str, &str, &[&str]) = match kind {
        0 => ("IF x% = 0 THEN\nOUT 1\n", "OUT 2\nELSE\nOUT 3\nEND IF\n", &["1%", "2%"]),
        1 => ("IF x% = 5 THEN\nOUT 1\n", "OUT 2\nELSEIF TRUE THEN\nOUT 3\nEND IF\n", &["3%"]),
        2 => ("WHILE x% < 3\nx = x + 1\n", "WEND\nOUT x\n", &["3%"]),
        3 => ("DO\nx% = x + 1\n", "LOOP UNTIL x > 2\nOUT x\n", &["3%"]),
        4 => ("DO WHILE x < 10\nx% = x + 1\nIF x > 3 THEN EXIT DO\n", "LOOP\nOUT x\n", &["4%"]),
        5 => ("FOR i% = 1 TO 2\nOUT i\n", "NEXT\n", &["1%", "2%"]),
        6 => ("FOR i% = 1 TO 2\nIF i = 2 THEN EXIT FOR\n", "NEXT\nOUT i\n", &["2%"]),
        7 => ("SELECT CASE x% + 1\nCASE 1\nOUT 1\n", "CASE ELSE\nOUT 2\nEND SELECT\n", &["1%"]),
        8 => ("SELECT CASE x%\nCASE 3\nOUT 1\n", "CASE ELSE\nOUT 2\nEND SELECT\n", &["2%"]),
        9 => ("GOTO @far\nOUT 1\n", "@far\nOUT 2\n", &["2%"]),
        10 => ("SUB foo\nOUT 1\n", "OUT 2\nEND SUB\nfoo\n", &["1%", "2%"]),
        _ => ("ON ERROR GOTO @far\nOUT FAILI(-1)\n", "@far\nOUT 2\n", &["2%"]),
    };
    let pad = "p = 0\n".repeat(n);
    let mut text = String::from("x = 0\nOUT 0\n");
    let mut wanted = vec!["0%".to_owned()];
    if pad_before {
        text.push_str(&pad);
        text.push_str(head);
    } else {
        text.push_str(head);
        text.push_str(&pad);
    }
    text.push_str(tail);
    wanted.extend(out.iter().map(|o| (*o).to_owned()));
    case.set_text(format!(
        "' {} padding statements {} the block\n{}{}",
        n,
        if pad_before { "before" } else { "within" },
        head,
        tail
    ));
    case.nontrivial = n > 60000;
    // Only the jump back to the start of a DO is there if there is no other guard.
    let back_only = kind == 3 && !pad_before;
    let want = if n < 65000 || back_only {
        case.label("long code within range");
        Want::Runs(wanted)
    } else {
        case.label("code out of range");
        Want::Rejected("Jump/call target is ", " which is too far", 1, text.lines().count())
    };
    let mut sut = Sut::new();
    check(&mut sut, &text, &want, &[("OUT 5".to_owned(), "5%".to_owned())])
}

/// More different literals than there are constants.
fn constants(s: &mut Src, case: &mut Case) -> CaseResult {
    let n = if s.chance(1, 2) { s.range(64000, 65500) } else { s.range(65540, 67000) } as usize;
    let ty = *s.pick(&[1, 2]);
    let mut text = String::new();
    for i in 0..n {
        writeln!(text, "c = {}", value(i, ty).0).unwrap();
    }
    let probe = [n - 1, 65530, 0, 32768][s.idx(4)].min(n - 1);
    writeln!(text, "OUT c\nc = {}\nOUT c", value(probe, ty).0).unwrap();
    case.set_text(format!("' {} different constants of type {}", n, SIGILS[ty]));
    case.nontrivial = true;
    let want = if n <= 65535 {
        case.label("constants within the limit");
        Want::Runs(vec![value(n - 1, ty).1, value(probe, ty).1])
    } else {
        case.label("constants over the limit");
        Want::Rejected("Out of constants", "", 65530, 65540)
    };
    let mut sut = Sut::new();
    check(&mut sut, &text, &want, &[("OUT 5".to_owned(), "5%".to_owned())])
}

struct Nop(Rc<CallableMetadata>);

#[async_trait(?Send)]
impl Callable for Nop {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.0.clone()
    }
    fn exec(&self, _: Scope<'_>) -> CallResult<()> {
        Ok(())
    }
}

/// More different commands of the host than there can be in a program.
fn host_commands(s: &mut Src, case: &mut Case) -> CaseResult {
    let n = if s.chance(1, 2) { s.range(65000, 65500) } else { s.range(65540, 66000) } as usize;
    case.set_text(format!("' {} different commands", n));
    case.nontrivial = true;
    let log = Rc::default();
    let mut up = upcalls(&log, false);
    let md = CallableMetadataBuilder::new("NOP")
        .with_syntax(&[(&[], None)])
        .with_category("V")
        .with_description("V")
        .build();
    let mut text = String::new();
    for i in 0..n {
        let name = format!("NOP{}", i);
        up.insert(SymbolKey::from(&name), Rc::new(Nop(md.clone())));
        text.push_str(&name);
        text.push('\n');
    }
    text.push_str("OUT 3\n");
    let compiler = Compiler::new(&up, &[]).map_err(|e| e.to_string())?;
    let vm = Vm::new(up);
    let mut sut = Sut { compiler, image: Image::default(), vm, log, yields: 0 };
    let want = if n <= 65535 {
        case.label("commands within the limit");
        Want::Runs(vec!["3%".to_owned()])
    } else {
        case.label("commands over the limit");
        Want::Rejected("Out of upcalls", "", 65530, 65540)
    };
    check(&mut sut, &text, &want, &[("OUT 5".to_owned(), "5%".to_owned())])
}

fn run(s: &mut Src, case: &mut Case) -> CaseResult {
    match s.weighted(&[4000, 1500, 300, 500, 500, 4, 1, 1]) {
        0 => stack(s, case),
        1 => heap(s, case),
        2 => locals(s, case),
        3 => globals(s, case),
        4 => temps(s, case),
        5 => far(s, case),
        6 => constants(s, case),
        _ => host_commands(s, case),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        rule: "Programs with recursion and GOSUBs under a call stack of 0 to 9 entries, compared with a reference interpreter that counts calls; programs under every heap size around the least that suffices, which must show a prefix of their output, and all of it from that size on; programs with numbers of locals, shared variables, temporaries, arguments, dimensions, constants, host commands and instructions around what the machine can hold, which must be accepted and run right, or be rejected with the error for the exhausted resource at the line that exhausts it, leaving the session usable. Non-trivial: the program calls something, exceeds the heap or gets close to a limit.",
        quick: 200000,
        thorough: 3000000,
        run,
        assumptions: &[],
    }]
}
