//! One module per group of properties, and what they share.

use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::xml::{self, Elem, Node, Style};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod faults;
pub mod memory;
mod reading;
mod roundtrip;
mod text;
mod visitors;
mod writing;

pub fn run(ctx: &mut Ctx) {
    match ctx.prop.clone().as_str() {
        "C01" => memory::c01(ctx, None),
        "C02" => faults::c02(ctx),
        "C13" => faults::c13(ctx),
        "C14" => faults::c14(ctx),
        "C15" => faults::c15(ctx),
        "C16" => faults::c16(ctx),
        "C17" => visitors::c17(ctx),
        "C03" => roundtrip::c03(ctx),
        "C04" => reading::c04(ctx),
        "C05" => reading::c05(ctx),
        "C06" => reading::c06(ctx),
        "C07" => reading::c07(ctx),
        "C08" => reading::c08(ctx),
        "C09" => reading::c09(ctx),
        "C10" => writing::c10(ctx),
        "C11" => writing::c11(ctx),
        "C12" => writing::c12(ctx),
        "C21" => writing::c21(ctx),
        "C18" => text::c18(ctx),
        "C19" => text::c19(ctx),
        p => panic!("unknown property {}", p),
    }
}

pub fn quiet_panics(verbose: bool) {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<crate::tracked::InjectedPanic>().is_some() {
            return;
        }
        if verbose {
            default(i);
        } else if !GUARDED.with(|g| g.get()) {
            default(i);
        } else {
            LAST_PANIC.with(|l| {
                *l.borrow_mut() = format!("{}", i);
            });
        }
    }));
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs library code; a panic is its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(old));
    r.map_err(|p| {
        if p.downcast_ref::<crate::tracked::InjectedPanic>().is_some() {
            return "injected".to_owned();
        }
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        format!("panicked: {} ({})", m, LAST_PANIC.with(|l| l.borrow().clone()))
    })
}

/// What a read came to.
#[derive(Debug)]
pub enum Outcome {
    Val(Val),
    Err(static_xml::de::Error),
    Panic(String),
}

impl Outcome {
    pub fn show(&self) -> String {
        match self {
            Outcome::Val(v) => format!("value {}", show_val(v)),
            Outcome::Err(e) => format!("error {}", guard(|| e.to_string()).unwrap_or_else(|p| p)),
            Outcome::Panic(p) => p.clone(),
        }
    }
    pub fn val(&self) -> Option<&Val> {
        match self {
            Outcome::Val(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Outcome::Err(_))
    }
}

pub fn show_val(v: &Val) -> String {
    clip(&format!("{:?}", v), 1200)
}

pub fn outcome(f: impl FnOnce() -> Result<Val, static_xml::de::Error>) -> Outcome {
    match guard(f) {
        Ok(Ok(v)) => Outcome::Val(v),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}

pub fn read(e: &Entry, text: &str) -> Outcome {
    outcome(|| (e.read)(&mut text.as_bytes()))
}

pub fn registry() -> Vec<Entry> {
    crate::types::registry()
}

/// Picks a type, all of them about equally often.
pub fn pick<'a>(reg: &'a [Entry], case: u64, rng: &mut Rng) -> &'a Entry {
    if rng.chance(70) {
        &reg[(mix(case) % reg.len() as u64) as usize]
    } else {
        rng.pick(reg)
    }
}

pub fn show_case(e: &Entry, text: &str) -> String {
    format!("type {} document {:?}", e.name, clip(text, 3000))
}

/// The first place where two values differ.
pub fn diff_val(a: &Val, b: &Val) -> Option<String> {
    fn go(a: &Val, b: &Val, at: &mut Vec<String>) -> Option<String> {
        if a == b {
            return None;
        }
        let pair = |at: &Vec<String>| Some(format!("at /{}: {} vs. {}", at.join("/"), clip(&format!("{:?}", a), 300), clip(&format!("{:?}", b), 300)));
        let r = match (a, b) {
            (Val::Struct(x), Val::Struct(y)) | (Val::Many(x), Val::Many(y)) if x.len() == y.len() => {
                let i = (0..x.len()).find(|i| x[*i] != y[*i]).unwrap();
                at.push(i.to_string());
                go(&x[i], &y[i], at)
            }
            (Val::Choice(i, Some(x)), Val::Choice(j, Some(y))) if i == j => {
                at.push(format!("choice{}", i));
                go(x, y, at)
            }
            (Val::Opt(Some(x)), Val::Opt(Some(y))) => go(x, y, at),
            _ => return pair(at),
        };
        r
    }
    go(a, b, &mut Vec::new())
}

/// How an outcome differs from the expected one.
pub fn mismatch(expected: &Result<Val, Fault>, got: &Outcome) -> Option<String> {
    match (expected, got) {
        (Ok(v), Outcome::Val(w)) => diff_val(v, w).map(|d| format!("expected vs. actual value differ {}", d)),
        (Err(_), Outcome::Err(_)) => None,
        (Ok(v), o) => Some(format!("{} instead of value {}", clip(&o.show(), 800), show_val(v))),
        (Err(f), o) => Some(format!("{} instead of an error ({:?} {} at {:?})", clip(&o.show(), 800), f.kind, f.subject, f.path)),
    }
}

/// Calls `f` with the text of every tracked value in `v`.
pub fn each_tracked(d: &Desc, v: &mut Val, f: &mut dyn FnMut(&mut String)) {
    fn ty(t: &Ty, v: &mut Val, f: &mut dyn FnMut(&mut String)) {
        match (t, v) {
            (t, Val::Opt(Some(x))) => ty(t, x, f),
            (t, Val::Many(m)) => m.iter_mut().for_each(|x| ty(t, x, f)),
            (Ty::Leaf(Leaf::Tracked), Val::Leaf(LeafVal::Str(s))) => f(s),
            (Ty::Node(n), v) => each_tracked(n(), v, f),
            _ => {}
        }
    }
    match (&d.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => fs.iter().zip(vs).for_each(|(x, v)| ty(&x.ty, v, f)),
        (Kind::Choice(vs), Val::Choice(i, Some(p))) => ty(vs[*i].ty.as_ref().unwrap(), p, f),
        _ => {}
    }
}

pub fn has_tracked(d: &Desc) -> bool {
    let mut all = Vec::new();
    reach(d, &mut all);
    let is = |t: &Ty| matches!(t, Ty::Leaf(Leaf::Tracked));
    all.iter().any(|d| match &d.kind {
        Kind::Struct(fs) => fs.iter().any(|f| is(&f.ty)),
        Kind::Choice(vs) => vs.iter().any(|v| v.ty.as_ref().map_or(false, is)),
    })
}
