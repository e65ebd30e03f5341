//! Properties of the core language against the reference model.

use crate::engine::*;
use crate::r#gen::*;
use crate::lang::*;
use crate::sut::*;

pub const BUDGET: u64 = 6000;

pub fn diff(want: &[String], got: &[String]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Some(format!(
        "output differs at line {}: model has {:?}, program has {:?}",
        i + 1,
        want.get(i),
        got.get(i)
    ))
}

pub fn show_stop(s: &Stop) -> String {
    match s {
        Stop::Eof => "reached the end".to_owned(),
        Stop::End(c) => format!("END {}", c),
        Stop::Exc(p, m) => format!("error {}:{}: {}", p.0, p.1, m),
    }
}

pub struct Modelled {
    pub interp: Interp,
    pub stop: Stop,
}

/// Runs a program on the model; positions must be already set by rendering it.
pub fn model(prog: &[St], budget: u64) -> Result<Modelled, String> {
    let mut rs = Resolver::new();
    let start = match rs.chunk(prog) {
        Ok(s) => s,
        Err(e) => return Err(format!("compile {}:{}: {}", e.pos.0, e.pos.1, e.msg)),
    };
    let mut interp = Interp::new(budget, 4096);
    match interp.exec(&rs, start) {
        Ok(stop) => Ok(Modelled { interp, stop }),
        Err(e) => Err(e.to_owned()),
    }
}

/// Compares a program rendered as `text` with its model.
pub fn compare(text: &str, m: &Modelled) -> CaseResult {
    let mut sut = Sut::new();
    if let Err(e) = sut.compile(text) {
        return Err(format!("valid program rejected: {}", e.text));
    }
    let stop = sut.run(BUDGET * 4)?;
    let out = sut.take_out();
    if let Some(d) = diff(&m.interp.out, &out) {
        return Err(format!("{} (stop: {}; expected {})", d, show_stop(&stop), show_stop(&m.stop)));
    }
    if stop != m.stop {
        return Err(format!("stopped with {}; expected {}", show_stop(&stop), show_stop(&m.stop)));
    }
    Ok(())
}

pub fn run_cfg(s: &mut Src, case: &mut Case, cfg: Cfg, free: bool) -> Option<(Used, Modelled, CaseResult)> {
    let mut g = Gen::new(s, cfg);
    let prog = g.program();
    let used = g.used.clone();
    let text = if free { render_free(&prog, s) } else { render(&prog) };
    case.set_text(text);
    let m = match model(&prog, BUDGET) {
        Ok(m) => m,
        Err(e) => {
            if e != "budget" {
                panic!("harness: {}", e);
            }
            case.discarded = true;
            return None;
        }
    };
    let r = compare(&case.text, &m);
    Some((used, m, r))
}

fn base() -> Cfg {
    Cfg {
        control: false,
        jumps: false,
        callables: false,
        arrays: true,
        err: ErrMode::Plain,
        contain: false,
        stmts: 8,
        expr_depth: 4,
        end_stmt: false,
        data: false,
        lasterr: true,
    }
}

fn control(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        control: true,
        jumps: true,
        callables: s.chance(1, 4),
        stmts: s.range(3, 30) as usize,
        expr_depth: 2,
        end_stmt: s.chance(1, 4),
        ..base()
    };
    let free = s.chance(1, 4);
    let Some((u, m, r)) = run_cfg(s, case, cfg, free) else { return Ok(()) };
    if u.loops > 0 {
        case.label("loop");
    }
    if u.jumps > 0 {
        case.label("goto");
    }
    if u.gosubs > 0 {
        case.label("gosub");
    }
    if u.exits > 0 {
        case.label("exit");
    }
    if u.selects > 0 {
        case.label("select");
    }
    if matches!(m.stop, Stop::Exc(..)) {
        case.label("stopped by error");
    }
    case.nontrivial =
        u.loops + u.jumps + u.gosubs + u.selects + u.ifs >= 2 && m.interp.steps as usize > u.stmts / 2;
    r
}

fn callables(s: &mut Src, case: &mut Case) -> CaseResult {
    let cfg = Cfg {
        control: s.chance(2, 3),
        jumps: s.chance(1, 4),
        callables: true,
        stmts: s.range(3, 16) as usize,
        expr_depth: 3,
        ..base()
    };
    let free = s.chance(1, 4);
    let Some((u, m, r)) = run_cfg(s, case, cfg, free) else { return Ok(()) };
    if u.recursion > 0 {
        case.label("recursive definition");
    }
    if m.interp.max_depth >= 3 {
        case.label("nested calls");
    }
    if m.interp.calls >= 3 {
        case.label("3+ calls");
    }
    case.nontrivial = m.interp.calls >= 2;
    r
}

fn errors(s: &mut Src, case: &mut Case) -> CaseResult {
    let mode = *s.pick(&[ErrMode::Risky, ErrMode::ResumeNext, ErrMode::Handler]);
    let cfg = Cfg {
        control: s.chance(2, 3),
        jumps: s.chance(1, 4),
        callables: s.chance(1, 2),
        stmts: s.range(3, 16) as usize,
        expr_depth: 3,
        err: mode,
        contain: mode != ErrMode::Risky,
        end_stmt: s.chance(1, 4),
        ..base()
    };
    let free = s.chance(1, 4);
    let Some((_, m, r)) = run_cfg(s, case, cfg, free) else { return Ok(()) };
    match mode {
        ErrMode::ResumeNext => case.label("RESUME NEXT"),
        ErrMode::Handler => case.label("GOTO handler"),
        _ => case.label("unhandled"),
    }
    if m.interp.handled > 0 {
        case.label("handled errors");
    }
    if m.interp.handled > 0 && m.interp.max_depth > 1 {
        case.label("handled errors with callables");
    }
    case.nontrivial = m.interp.errors_raised > 0;
    r
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "Programs of IF/SELECT/FOR/WHILE/DO blocks with EXIT, GOTO, GOSUB, labels, END and shared or local scalars and arrays, built from a grammar so that every variable read is definitely assigned, executed by the VM and by a tree-walking reference interpreter; the host output, the stop reason and its position must match. Non-trivial: the model executed at least one loop iteration, taken branch or jump (see classes) and produced output.",
            quick: 700000,
            thorough: 10500000,
            run: control,
            assumptions: &[],
        },
        Prop {
            id: "C03",
            rule: "Programs with SUBs and FUNCTIONs (parameters with conversions, locals, early EXIT, recursion, DECLARE, nested calls within expressions, shared globals), executed by the VM and by the reference interpreter. Non-trivial: at least two calls to user-defined callables were executed.",
            quick: 600000,
            thorough: 9000000,
            run: callables,
            assumptions: &[],
        },
        Prop {
            id: "C04",
            rule: "Programs in which arithmetic, subscripts, conversions, commands and called functions fail, unhandled or under ON ERROR RESUME NEXT / GOTO / GOTO 0, executed by the VM and by the reference interpreter. Non-trivial: at least one run-time error was raised.",
            quick: 700000,
            thorough: 10500000,
            run: errors,
            assumptions: &[],
        },
    ]
}
