//! Runs programs on the real core (compiler and VM) with a set of observation callables.

use crate::lang::{Pos, Stop};
use async_trait::async_trait;
use endbasic_core::*;
use futures_lite::future::block_on;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Log {
    pub out: Vec<String>,
    pub ticks: i32,
}

type L = Rc<RefCell<Log>>;

pub fn show(d: &ConstantDatum) -> String {
    match d {
        ConstantDatum::Boolean(b) => format!("{}?", b),
        ConstantDatum::Double(d) => format!("{:?}#", d),
        ConstantDatum::Integer(i) => format!("{}%", i),
        ConstantDatum::Text(s) => format!("{:?}$", s),
    }
}

struct Fun {
    md: Rc<CallableMetadata>,
    log: L,
    f: fn(&L, Scope<'_>) -> CallResult<()>,
}

#[async_trait(?Send)]
impl Callable for Fun {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        (self.f)(&self.log, scope)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        futures_lite::future::yield_now().await;
        (self.f)(&self.log, scope)
    }
}

fn out(log: &L, scope: Scope<'_>) -> CallResult<()> {
    let mut reg = 0;
    let mut s = String::new();
    loop {
        let sep = match scope.get_type(reg) {
            VarArgTag::Immediate(sep, t) => {
                reg += 1;
                match t {
                    ExprType::Boolean => s += &format!("{}?", scope.get_boolean(reg)),
                    ExprType::Double => s += &format!("{:?}#", scope.get_double(reg)),
                    ExprType::Integer => s += &format!("{}%", scope.get_integer(reg)),
                    ExprType::Text => s += &format!("{:?}$", scope.get_string(reg)),
                }
                sep
            }
            VarArgTag::Missing(sep) => sep,
            VarArgTag::Pointer(_) => panic!("unexpected pointer"),
        };
        reg += 1;
        match sep {
            ArgSep::End => break,
            ArgSep::Short => s += " ; ",
            ArgSep::Long => s += " , ",
            ArgSep::As => s += " AS ",
        }
    }
    log.borrow_mut().out.push(s);
    Ok(())
}

fn setref(_log: &L, mut scope: Scope<'_>) -> CallResult<()> {
    let VarArgTag::Immediate(_, etype) = scope.get_type(1) else {
        return Err(CallError::Argument("Bad value".to_owned()));
    };
    enum V {
        B(bool),
        D(f64),
        I(i32),
        T(String),
    }
    let v = match etype {
        ExprType::Boolean => V::B(scope.get_boolean(2)),
        ExprType::Double => V::D(scope.get_double(2)),
        ExprType::Integer => V::I(scope.get_integer(2)),
        ExprType::Text => V::T(scope.get_string(2).to_owned()),
    };
    let mut r = scope.get_mut_ref(0);
    if r.vtype != etype {
        return Err(CallError::Argument("Types differ".to_owned()));
    }
    match v {
        V::B(b) => r.set_boolean(b),
        V::D(b) => r.set_double(b),
        V::I(b) => r.set_integer(b),
        V::T(b) => r.set_string(b)?,
    }
    Ok(())
}

const LONG: ArgSepSyntax = ArgSepSyntax::Exactly(ArgSep::Long);

const fn req(name: &'static str, vtype: ExprType, sep: ArgSepSyntax) -> SingularArgSyntax {
    SingularArgSyntax::RequiredValue(RequiredValueSyntax { name: Cow::Borrowed(name), vtype }, sep)
}

/// Builds the observation callables.
pub fn upcalls(log: &L, async_mode: bool) -> HashMap<SymbolKey, Rc<dyn Callable>> {
    let mut up: HashMap<SymbolKey, Rc<dyn Callable>> = HashMap::new();
    let mut add = |b: CallableMetadataBuilder, f: fn(&L, Scope<'_>) -> CallResult<()>| {
        let md = b.with_async(async_mode).with_category("V").with_description("V").build();
        up.insert(md.name().into(), Rc::new(Fun { md, log: log.clone(), f }));
    };
    use ExprType::*;
    add(
        CallableMetadataBuilder::new("OUT").with_syntax(&[(
            &[],
            Some(&RepeatedSyntax {
                name: Cow::Borrowed("arg"),
                type_syn: RepeatedTypeSyntax::AnyValue,
                sep: ArgSepSyntax::OneOf(&[ArgSep::Short, ArgSep::Long]),
                require_one: false,
                allow_missing: true,
            }),
        )]),
        out,
    );
    add(
        CallableMetadataBuilder::new("TICK").with_return_type(Integer).with_syntax(&[(&[], None)]),
        |log, scope| {
            let mut l = log.borrow_mut();
            l.ticks = l.ticks.wrapping_add(1);
            let t = l.ticks;
            drop(l);
            scope.return_integer(t)
        },
    );
    add(
        CallableMetadataBuilder::new("MIX").with_return_type(Text).with_syntax(&[(
            const {
                &[
                    req("i", Integer, LONG),
                    req("d", Double, LONG),
                    req("b", Boolean, LONG),
                    req("s", Text, ArgSepSyntax::End),
                ]
            },
            None,
        )]),
        |_log, scope| {
            let s = format!(
                "{}%|{:?}#|{}?|{:?}$",
                scope.get_integer(0),
                scope.get_double(1),
                scope.get_boolean(2),
                scope.get_string(3)
            );
            scope.return_string(s)
        },
    );
    add(
        CallableMetadataBuilder::new("TOTAL").with_return_type(Integer).with_syntax(&[(
            &[],
            Some(&RepeatedSyntax {
                name: Cow::Borrowed("i"),
                type_syn: RepeatedTypeSyntax::TypedValue(Integer),
                sep: ArgSepSyntax::Exactly(ArgSep::Long),
                require_one: true,
                allow_missing: false,
            }),
        )]),
        |_log, scope| {
            let mut t = 0i32;
            for i in 0..scope.nargs() as u8 {
                t = t.wrapping_add(scope.get_integer(i));
            }
            scope.return_integer(t)
        },
    );
    add(
        CallableMetadataBuilder::new("LOGI")
            .with_return_type(Integer)
            .with_syntax(&[(const { &[req("i", Integer, ArgSepSyntax::End)] }, None)]),
        |log, scope| {
            let i = scope.get_integer(0);
            log.borrow_mut().out.push(format!("log {}", i));
            scope.return_integer(i)
        },
    );
    add(
        CallableMetadataBuilder::new("FAILI")
            .with_return_type(Integer)
            .with_syntax(&[(const { &[req("i", Integer, ArgSepSyntax::End)] }, None)]),
        |_log, scope| {
            let i = scope.get_integer(0);
            if i < 0 {
                return Err(CallError::Argument(format!("Failed with {}", i)));
            }
            scope.return_integer(i)
        },
    );
    add(
        CallableMetadataBuilder::new("LASTERR").with_return_type(Text).with_syntax(&[(&[], None)]),
        |_log, scope| {
            let s = match scope.last_error() {
                Some((p, m)) => format!("{}: {}", p, m),
                None => "none".to_owned(),
            };
            scope.return_string(s)
        },
    );
    add(CallableMetadataBuilder::new("DATALIST").with_syntax(&[(&[], None)]), |log, scope| {
        let v: Vec<String> =
            scope.data().iter().map(|d| d.as_ref().map(show).unwrap_or("()".to_owned())).collect();
        log.borrow_mut().out.push(v.join(" "));
        Ok(())
    });
    add(
        CallableMetadataBuilder::new("SETREF").with_syntax(&[(
            &[
                SingularArgSyntax::RequiredRef(
                    RequiredRefSyntax {
                        name: Cow::Borrowed("var"),
                        require_array: false,
                        define_undefined: true,
                    },
                    LONG,
                ),
                SingularArgSyntax::AnyValue(
                    AnyValueSyntax { name: Cow::Borrowed("value"), allow_missing: false },
                    ArgSepSyntax::End,
                ),
            ],
            None,
        )]),
        setref,
    );
    up
}

/// A compiler, image and VM as an embedder holds them.
pub struct Sut {
    pub compiler: Compiler,
    pub image: Image,
    pub vm: Vm,
    pub log: L,
    pub yields: u64,
}

/// Compilation failure: position (if any) and full text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompErr {
    pub text: String,
}

impl CompErr {
    pub fn pos(&self) -> Option<Pos> {
        let mut it = self.text.splitn(3, ':');
        let l = it.next()?.parse().ok()?;
        let c = it.next()?.parse().ok()?;
        Some((l, c))
    }
}

impl Sut {
    pub fn new() -> Self {
        Self::with(false, Limits::default(), &[])
    }

    pub fn with(async_mode: bool, limits: Limits, globals: &[GlobalDef]) -> Self {
        let log: L = Rc::default();
        let up = upcalls(&log, async_mode);
        let compiler = Compiler::new(&up, globals).expect("compiler");
        Sut {
            compiler,
            image: Image::default(),
            vm: Vm::new_with_limits(up, limits),
            log,
            yields: 0,
        }
    }

    pub fn compile(&mut self, text: &str) -> Result<(), CompErr> {
        self.compiler
            .compile_more(&mut self.image, &mut text.as_bytes())
            .map_err(|e| CompErr { text: e.to_string() })
    }

    /// Runs until the program stops; `Err` if it does not stop within `max_yields`.
    pub fn run(&mut self, max_yields: u64) -> Result<Stop, String> {
        let mut n = 0;
        loop {
            match self.vm.exec(&self.image) {
                StopReason::End(c) => return Ok(Stop::End(c.to_i32())),
                StopReason::Eof => return Ok(Stop::Eof),
                StopReason::Exception(p, m) => return Ok(Stop::Exc((p.line, p.col), m)),
                StopReason::UpcallAsync(h) => {
                    if let Err(e) = block_on(h.invoke()) {
                        let (p, m) = e.parts();
                        return Ok(Stop::Exc((p.line, p.col), m));
                    }
                }
                StopReason::Yield => {
                    n += 1;
                    self.yields += 1;
                    if n > max_yields {
                        return Err(format!("still running after {} yields", n));
                    }
                }
            }
        }
    }

    pub fn take_out(&self) -> Vec<String> {
        std::mem::take(&mut self.log.borrow_mut().out)
    }
}
