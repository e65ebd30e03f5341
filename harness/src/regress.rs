//! Fixed reproductions of defects found earlier, replayed without the generators on every run.
//!
//! A reproduction that fails counts as a known finding only if `known-findings.txt` lists its name
//! along with the exact signature of the failure.

use crate::engine::*;
use crate::lang::Stop;
use crate::sut::*;
use std::path::Path;

/// A sequence of chunks of code and the lines that they must show, with the compilation and
/// execution errors included.
struct Lang {
    prop: &'static str,
    name: &'static str,
    chunks: &'static [&'static str],
    want: &'static [&'static str],
}

const LANG: &[Lang] = &[
    // Listed findings.
    Lang {
        prop: "C02",
        name: "unassigned-variable-reads-temporary",
        chunks: &["IF FALSE THEN\ns = \"foo\"\nEND IF\nOUT s\n"],
        want: &["\"\"$"],
    },
    Lang {
        prop: "C02",
        name: "loop-guard-clobbers-variable",
        chunks: &["v2 = 0\nFOR i = 1 TO 1\nc = 0\nWHILE c < 1\nc = c + 1\nWEND\nNEXT\nOUT c\n"],
        want: &["1%"],
    },
    Lang {
        prop: "C02",
        name: "goto-over-dim-string",
        chunks: &["GOTO @x\nDIM s AS STRING\n@x\nOUT s\n"],
        want: &["\"\"$"],
    },
    Lang {
        prop: "C04",
        name: "failed-assignment-overwrites-target",
        chunks: &["ON ERROR RESUME NEXT\nx = 3\nx = 10 / 0\nOUT x\n"],
        want: &["3%"],
    },
    Lang {
        prop: "C05",
        name: "failed-assignment-overwrites-target",
        chunks: &["x = 3\n", "x = 10 / 0\n", "OUT x\n"],
        want: &["1:8: Division by zero", "3%"],
    },
    // Fixed defects.
    Lang {
        prop: "C03",
        name: "double-function-default",
        chunks: &["FUNCTION f#\nEND FUNCTION\nx = 7\nOUT x; f#; f# + 1\n"],
        want: &["7% ; 0.0# ; 1.0#"],
    },
    Lang {
        prop: "C03",
        name: "argless-call-clobbers",
        chunks: &[
            "FUNCTION two%\ntwo = 2\nEND FUNCTION\nOUT 3 + two% * two%; 10 - (20 - two%)\n\
             FUNCTION three%\nx = two% * 10 + two%\nthree = x\nEND FUNCTION\n\
             OUT 100 + (200 + three%)\n",
        ],
        want: &["7% ; -8%", "322%"],
    },
    Lang {
        prop: "C03",
        name: "partial-results-of-globals",
        chunks: &[
            "DIM SHARED g\ng = 5\nFUNCTION peek\npeek = g\nEND FUNCTION\n\
             g = (1 + 2) * 10 + peek\nOUT g\n",
        ],
        want: &["35%"],
    },
    Lang {
        prop: "C06",
        name: "negate-smallest-data",
        chunks: &["DATA -&x80000000\n", "FOR i = 1 TO 2 STEP -&x80000000\nNEXT\n"],
        want: &["1:6: Integer overflow", "1:22: Integer overflow"],
    },
    Lang {
        prop: "C06",
        name: "not-as-binary-operator",
        chunks: &["OUT 1 NOT 2\n", "x = x NOT\n"],
        want: &["1:7: Unexpected NOT in expression", "1:7: Unexpected NOT in expression"],
    },
    Lang {
        prop: "C12",
        name: "empty-required-any-value",
        chunks: &["x = 1\nSETREF x,\nOUT x\n"],
        want: &["2:1: SETREF expected var, value"],
    },
    Lang {
        prop: "C02",
        name: "self-defining-assignment",
        chunks: &["OUT 5\nx = x\nOUT x\n"],
        want: &["5%", "0%"],
    },
    Lang {
        prop: "C02",
        name: "self-defining-text",
        chunks: &["OUT 5\ny$ = y$\nOUT y\n"],
        want: &["5%", "\"\"$"],
    },
    Lang {
        prop: "C04",
        name: "resume-next-boundaries",
        chunks: &[
            "ON ERROR RESUME NEXT\nIF TRUE THEN\nOUT 1\nOUT 1 / 0\nELSE\nOUT 2\nEND IF\nOUT 3\n\
             FOR i = 1 TO 2\nOUT i\nOUT 1 / 0\nNEXT\nOUT 4\nSUB s\nOUT 5\nOUT 1 / 0\nEND SUB\ns\n\
             OUT 6\nOUT 1 / 0\n",
        ],
        want: &["1%", "3%", "1%", "2%", "4%", "5%", "6%"],
    },
    Lang {
        prop: "C01",
        name: "array-too-large",
        chunks: &["DIM a(2147483647, 2147483647)\n", "OUT 3\n"],
        want: &["1:5: Out of heap space", "3%"],
    },
    Lang {
        prop: "C04",
        name: "handler-unwinds-callables",
        chunks: &[
            "SUB s\nv = 1\nOUT 1 / 0\nEND SUB\nx = 5\nON ERROR GOTO @h\ns\nEND\n@h\n\
             OUT x; LASTERR\n",
        ],
        want: &["5% ; \"3:7: Division by zero\"$"],
    },
    Lang {
        prop: "C05",
        name: "stop-within-callable",
        chunks: &["x = 3\nSUB s\ny = 9\nEND\nEND SUB\ns\n", "OUT x\n"],
        want: &["3%"],
    },
    Lang {
        prop: "C05",
        name: "fail-within-callable",
        chunks: &["x = 3\nSUB s\ny = 9\nOUT 1 / 0\nEND SUB\ns\n", "OUT x\nx = 4\n", "OUT x\n"],
        want: &["4:7: Division by zero", "3%", "4%"],
    },
    Lang {
        prop: "C06",
        name: "duplicate-parameters",
        chunks: &["FUNCTION f(a, a)\nEND FUNCTION\n", "FUNCTION f(f)\nEND FUNCTION\n"],
        want: &["1:10: Cannot redefine a", "1:10: Cannot redefine f"],
    },
    Lang {
        prop: "C07",
        name: "declared-but-undefined",
        chunks: &["DECLARE FUNCTION f\nOUT f\n"],
        want: &["2:5: Undefined symbol F"],
    },
    Lang {
        prop: "C07",
        name: "exit-do-in-nested-callable",
        chunks: &["DO\nSUB s\nEXIT DO\nEND SUB\nLOOP\n"],
        want: &["3:1: EXIT DO outside of DO"],
    },
];

fn run_lang(l: &Lang) -> CaseResult {
    let mut sut = Sut::new();
    let mut got = vec![];
    for c in l.chunks {
        match sut.compile(c) {
            Err(e) => got.push(e.text),
            Ok(()) => {
                let r = sut.run(1000)?;
                got.extend(sut.take_out());
                match r {
                    Stop::Exc((l, c), m) => got.push(format!("{}:{}: {}", l, c, m)),
                    Stop::End(0) | Stop::Eof => (),
                    s => got.push(format!("{:?}", s)),
                }
            }
        }
    }
    if got != l.want {
        return Err(format!("{:?} shows {:?} instead of {:?}", l.chunks.concat(), got, l.want));
    }
    Ok(())
}

/// Signature and description of the finding `name` of `prop`, if listed.
pub fn listed(verif: &Path, prop: &str, name: &str) -> Option<(String, String)> {
    let body = std::fs::read_to_string(verif.join("known-findings.txt")).ok()?;
    let prefix = format!("finding: property={} name={} sig=<<", prop, name);
    let rest = body.lines().find_map(|l| l.strip_prefix(&prefix))?;
    let (sig, what) = rest.split_once(">> ")?;
    Some((sig.to_owned(), what.to_owned()))
}

pub fn regressions(prop: &str) -> Vec<Regression> {
    let mut v = vec![];
    for l in LANG {
        if l.prop == prop {
            v.push(Regression { name: l.name, run: Box::new(move || run_lang(l)) });
        }
    }
    if prop == "C09" {
        v.push(Regression { name: "arrays-before-dim", run: Box::new(arrays_before_dim) });
    }
    v
}

/// The host can ask for arrays whose definition was not executed yet.
fn arrays_before_dim() -> CaseResult {
    let mut sut = Sut::new();
    sut.compile("OUT 1 / 0\nDIM a(3) AS STRING\nDIM SHARED g(2, 2)\n").map_err(|e| e.text)?;
    for run in [false, true] {
        if run {
            sut.run(1000)?;
        }
        let a = sut.vm.get_program_array(&sut.image, &"a".into(), &[0]);
        let g = sut.vm.get_global_array(&sut.image, &"g".into(), &[0, 0]);
        if !matches!((&a, &g), (Ok(None), Ok(None))) {
            return Err(format!("arrays that do not exist yet are {:?} and {:?}", a, g));
        }
    }
    Ok(())
}
