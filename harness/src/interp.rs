//! The reference: what a document means for a type, and what a value looks like as a document.
//!
//! Works on trees and descriptors; knows nothing of prefixes, events or generated code.

use crate::model::*;
use crate::rng::Rng;
use crate::xml::{Elem, Node};

/// Why a document doesn't fit, and where.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault {
    pub kind: FaultKind,
    /// Child-element indexes from the root to the element in which the problem occurred.
    pub path: Vec<usize>,
    /// The name of what's missing, unparsable, duplicate or unexpected.
    pub subject: String,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum FaultKind {
    MissingElem,
    MissingAttr,
    DuplicateElem,
    DuplicateAttr,
    UnparsableAttr,
    UnparsableText,
    ChildInText,
    OtherChoice,
    NoChoice,
}

pub fn expanded(ns: &str, local: &str) -> String {
    if ns.is_empty() { local.to_owned() } else { format!("{{{}}}{}", ns, local) }
}

fn fault(kind: FaultKind, subject: String) -> Fault {
    Fault { kind, path: Vec::new(), subject }
}

enum State<'d> {
    S(&'d [Field], Vec<FState<'d>>),
    C(&'d Desc, &'d [Variant], Option<(usize, Option<Val>)>),
}

enum FState<'d> {
    Item(Option<Val>),
    Text(String),
    Flat(State<'d>),
}

fn read_ty(ty: &Ty, e: &Elem) -> Result<Val, Fault> {
    match ty {
        Ty::Leaf(l) => {
            if let Some((i, c)) = e.elems().enumerate().next() {
                let mut f = fault(FaultKind::ChildInText, expanded(&c.ns, &c.local));
                f.path.push(i);
                return Err(f);
            }
            parse_leaf(l, &e.text_of())
                .map(Val::Leaf)
                .map_err(|_| fault(FaultKind::UnparsableText, expanded(&e.ns, &e.local)))
        }
        Ty::Node(d) => interp(d(), e),
    }
}

fn first(card: Card, v: Val) -> Val {
    match card {
        Card::One => v,
        Card::Opt | Card::First | Card::Last => Val::Opt(Some(Box::new(v))),
        Card::Many => Val::Many(vec![v]),
    }
}

/// A repeated occurrence.
fn again(card: Card, cur: &mut Val, ty: &Ty, e: &Elem) -> Result<(), Fault> {
    match (card, cur) {
        (Card::Many, Val::Many(m)) => {
            m.push(read_ty(ty, e)?);
            Ok(())
        }
        (Card::First, _) => Ok(()),
        (Card::Last, cur) => {
            *cur = first(card, read_ty(ty, e)?);
            Ok(())
        }
        _ => Err(fault(FaultKind::DuplicateElem, expanded(&e.ns, &e.local))),
    }
}

impl<'d> State<'d> {
    fn new(d: &'d Desc) -> Self {
        match &d.kind {
            Kind::Struct(fs) => State::S(
                fs,
                fs.iter()
                    .map(|f| match (f.mode, &f.ty) {
                        (Mode::Flatten, Ty::Node(d)) => FState::Flat(State::new(d())),
                        (Mode::Text, _) => FState::Text(String::new()),
                        _ => FState::Item(None),
                    })
                    .collect(),
            ),
            Kind::Choice(vs) => State::C(d, vs, None),
        }
    }

    fn attr(&mut self, ns: &str, local: &str, value: &str) -> Result<bool, Fault> {
        let State::S(fs, st) = self else { return Ok(false) };
        for (f, s) in fs.iter().zip(st.iter_mut()) {
            if let (Mode::Attr, FState::Item(cur)) = (f.mode, s) {
                if f.ns == ns && f.local == local {
                    if cur.is_some() {
                        return Err(fault(FaultKind::DuplicateAttr, expanded(ns, local)));
                    }
                    let Ty::Leaf(l) = &f.ty else { unreachable!() };
                    let v = parse_leaf(l, value).map_err(|_| fault(FaultKind::UnparsableAttr, expanded(ns, local)))?;
                    *cur = Some(first(f.card, Val::Leaf(v)));
                    return Ok(true);
                }
            }
        }
        for s in st.iter_mut() {
            if let FState::Flat(x) = s {
                if x.attr(ns, local, value)? {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }

    fn elem(&mut self, e: &Elem) -> Result<bool, Fault> {
        match self {
            State::S(fs, st) => {
                for (f, s) in fs.iter().zip(st.iter_mut()) {
                    if let (Mode::Elem, FState::Item(cur)) = (f.mode, s) {
                        if f.ns == e.ns && f.local == e.local {
                            match cur {
                                Some(c) => again(f.card, c, &f.ty, e)?,
                                None => *cur = Some(first(f.card, read_ty(&f.ty, e)?)),
                            }
                            return Ok(true);
                        }
                    }
                }
                for s in st.iter_mut() {
                    if let FState::Flat(x) = s {
                        if x.elem(e)? {
                            return Ok(true);
                        }
                    }
                }
                Ok(false)
            }
            State::C(_, vs, cur) => {
                let Some(i) = vs.iter().position(|v| !v.skip && v.ns == e.ns && v.local == e.local) else {
                    return Ok(false);
                };
                let v = &vs[i];
                match cur {
                    None => {
                        let val = match &v.ty {
                            None => None,
                            Some(t) => Some(first(v.card, read_ty(t, e)?)),
                        };
                        *cur = Some((i, val));
                    }
                    Some((j, _)) if *j != i => {
                        return Err(fault(FaultKind::OtherChoice, expanded(&e.ns, &e.local)));
                    }
                    Some((_, None)) => {}
                    Some((_, Some(c))) => again(v.card, c, v.ty.as_ref().unwrap(), e)?,
                }
                Ok(true)
            }
        }
    }

    fn text(&mut self, t: &str) -> bool {
        let State::S(_, st) = self else { return false };
        for s in st.iter_mut() {
            if let FState::Text(b) = s {
                b.push_str(t);
                return true;
            }
        }
        for s in st.iter_mut() {
            if let FState::Flat(x) = s {
                if x.text(t) {
                    return true;
                }
            }
        }
        false
    }

    fn finish(self) -> Result<Val, Fault> {
        match self {
            State::S(fs, st) => {
                let mut out = Vec::new();
                for (f, s) in fs.iter().zip(st) {
                    out.push(match s {
                        FState::Item(Some(v)) => v,
                        FState::Item(None) => match (f.default, f.card) {
                            (Some(d), _) => d(),
                            (None, Card::Opt | Card::First | Card::Last) => Val::Opt(None),
                            (None, Card::Many) => Val::Many(Vec::new()),
                            (None, Card::One) => {
                                let k = if f.mode == Mode::Attr { FaultKind::MissingAttr } else { FaultKind::MissingElem };
                                return Err(fault(k, expanded(f.ns, f.local)));
                            }
                        },
                        FState::Text(t) => {
                            let Ty::Leaf(l) = &f.ty else { unreachable!() };
                            match f.default {
                                Some(d) if t.is_empty() => d(),
                                _ => Val::Leaf(
                                    parse_leaf(l, &t).map_err(|_| fault(FaultKind::UnparsableText, String::new()))?,
                                ),
                            }
                        }
                        FState::Flat(x) => x.finish()?,
                    });
                }
                Ok(Val::Struct(out))
            }
            State::C(d, _, cur) => match cur {
                None => Err(fault(FaultKind::NoChoice, d.name.to_owned())),
                Some((i, v)) => Ok(Val::Choice(i, v.map(Box::new))),
            },
        }
    }
}

/// The value `e` denotes for the type, or the first problem in document order.
pub fn interp(d: &Desc, e: &Elem) -> Result<Val, Fault> {
    let mut st = State::new(d);
    for a in &e.attrs {
        st.attr(&a.ns, &a.local, &a.value)?;
    }
    let mut i = 0;
    for c in &e.children {
        match c {
            Node::E(x) => {
                let before_self = |mut f: Fault| {
                    f.path.insert(0, i);
                    f
                };
                // Problems with a claimed child lie in that child.
                st.elem(x).map_err(before_self)?;
                i += 1;
            }
            Node::T(t) => {
                st.text(t);
            }
            _ => {}
        }
    }
    st.finish()
}

// ---------------------------------------------------------------------------------------------
// Values to documents
// ---------------------------------------------------------------------------------------------

fn put_attrs(d: &Desc, v: &Val, e: &mut Elem) {
    let (Kind::Struct(fs), Val::Struct(vs)) = (&d.kind, v) else { return };
    for (f, v) in fs.iter().zip(vs) {
        if f.mode == Mode::Attr {
            let Ty::Leaf(l) = &f.ty else { unreachable!() };
            let v = match v {
                Val::Leaf(v) => v,
                Val::Opt(Some(v)) => match &**v {
                    Val::Leaf(v) => v,
                    _ => unreachable!(),
                },
                _ => continue,
            };
            e.attr(f.ns, f.local, &print_leaf(l, v));
        }
    }
    for (f, v) in fs.iter().zip(vs) {
        if let (Mode::Flatten, Ty::Node(n)) = (f.mode, &f.ty) {
            put_attrs(n(), v, e);
        }
    }
}

fn put_elem(ns: &str, local: &str, ty: &Ty, v: &Val, e: &mut Elem) {
    match v {
        Val::Opt(None) => {}
        Val::Opt(Some(v)) => put_elem(ns, local, ty, v, e),
        Val::Many(m) => m.iter().for_each(|v| put_elem(ns, local, ty, v, e)),
        v => {
            let mut c = Elem::new(ns, local);
            match (ty, v) {
                (Ty::Leaf(l), Val::Leaf(v)) => c.children.push(Node::T(print_leaf(l, v))),
                (Ty::Node(d), v) => {
                    put_attrs(d(), v, &mut c);
                    put_children(d(), v, &mut c);
                }
                _ => unreachable!(),
            }
            e.children.push(Node::E(c));
        }
    }
}

fn put_children(d: &Desc, v: &Val, e: &mut Elem) {
    match (&d.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => {
            for (f, v) in fs.iter().zip(vs) {
                if let (Mode::Text, Ty::Leaf(l), Val::Leaf(v)) = (f.mode, &f.ty, v) {
                    e.children.push(Node::T(print_leaf(l, v)));
                }
            }
            for (f, v) in fs.iter().zip(vs) {
                if f.mode == Mode::Elem {
                    put_elem(f.ns, f.local, &f.ty, v, e);
                }
            }
            for (f, v) in fs.iter().zip(vs) {
                if let (Mode::Flatten, Ty::Node(n)) = (f.mode, &f.ty) {
                    put_children(n(), v, e);
                }
            }
        }
        (Kind::Choice(vs), Val::Choice(i, p)) => {
            let var = &vs[*i];
            match (&var.ty, p) {
                (Some(t), Some(p)) => put_elem(var.ns, var.local, t, p, e),
                _ => e.children.push(Node::E(Elem::new(var.ns, var.local))),
            }
        }
        _ => unreachable!(),
    }
}

/// The document `v` serializes as, as a normalized tree.
pub fn expect_tree(d: &Desc, v: &Val) -> Elem {
    let mut e = Elem::new(d.root.0, d.root.1);
    put_attrs(d, v, &mut e);
    put_children(d, v, &mut e);
    e.normalized()
}

/// Does any element mix text and elements?
pub fn is_mixed(d: &Desc) -> bool {
    fn own(d: &Desc) -> (bool, bool) {
        match &d.kind {
            Kind::Struct(fs) => fs.iter().fold((false, false), |(t, e), f| match (f.mode, &f.ty) {
                (Mode::Text, _) => (true, e),
                (Mode::Elem, _) => (t, true),
                (Mode::Flatten, Ty::Node(n)) => {
                    let (a, b) = own(n());
                    (t | a, e | b)
                }
                _ => (t, e),
            }),
            Kind::Choice(_) => (false, true),
        }
    }
    let mut all = Vec::new();
    reach(d, &mut all);
    all.iter().any(|d| {
        let (t, e) = own(d);
        t && e
    })
}

/// All types reachable from `d`, itself included.
pub fn reach<'d>(d: &'d Desc, out: &mut Vec<&'d Desc>) {
    if out.iter().any(|o| std::ptr::eq(*o, d)) {
        return;
    }
    out.push(d);
    let tys: Vec<&Ty> = match &d.kind {
        Kind::Struct(fs) => fs.iter().map(|f| &f.ty).collect(),
        Kind::Choice(vs) => vs.iter().filter_map(|v| v.ty.as_ref()).collect(),
    };
    for t in tys {
        if let Ty::Node(n) = t {
            reach(n(), out);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Document generation
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct GenOpts {
    /// Percentage of optional things present.
    pub presence: usize,
    pub max_many: usize,
    pub max_depth: usize,
    /// Longest random text.
    pub text: usize,
    /// Shuffle children and attributes.
    pub shuffle: bool,
    /// Elements after which nothing optional is added.
    pub budget: usize,
}

impl GenOpts {
    pub fn random(rng: &mut Rng) -> Self {
        if rng.chance(1) && !cfg!(miri) {
            if rng.chance(30) {
                // Many of something.
                let n = rng.size(1100).unwrap_or(70);
                return GenOpts { presence: 40, max_many: n, max_depth: 2, text: 4, shuffle: rng.chance(50), budget: 1500 };
            }
            // Deep.
            return GenOpts { presence: 50, max_many: 1, max_depth: if rng.chance(15) { rng.size(900).unwrap_or(300) } else { rng.range(20, 140) }, text: 4, shuffle: rng.chance(50), budget: 300 };
        }
        GenOpts {
            presence: *rng.pick(&[0, 30, 60, 90, 100]),
            max_many: *rng.pick(&[1, 2, 3, 6]),
            max_depth: rng.range(1, 5),
            text: *rng.pick(&[4, 12, 40]),
            shuffle: rng.chance(80),
            budget: *rng.pick(&[10, 40, 120]),
        }
    }
}

fn pad(rng: &mut Rng, s: &str) -> String {
    const W: &[&str] = &["", "", " ", "\n", "\t ", "\r\n", "  "];
    format!("{}{}{}", rng.pick(W), s, rng.pick(W))
}

/// Text which parses as `l`. Callers check.
pub fn gen_leaf_text(l: &Leaf, rng: &mut Rng, max: usize) -> String {
    for _ in 0..50 {
        let t = match l {
            Leaf::String | Leaf::Std { .. } => rng.xml_text(max),
            Leaf::Tracked => rng.xml_text(max.min(8)).replace('!', "?"),
            Leaf::Bool => {
                let t = *rng.pick(&["true", "false", "0", "1"]);
                pad(rng, t)
            }
            Leaf::Int(signed, bits) => {
                let t = if *signed {
                    let min = i128::MIN >> (128 - bits);
                    let max = i128::MAX >> (128 - bits);
                    let v = match rng.below(6) {
                        0 => min,
                        1 => max,
                        2 => 0,
                        3 => min + 1,
                        _ => (((rng.u64() as u128) << 64 | rng.u64() as u128) as i128) >> (128 - bits) >> rng.below(*bits as usize),
                    };
                    v.to_string()
                } else {
                    let max = u128::MAX >> (128 - bits);
                    let v = match rng.below(6) {
                        0 => 0,
                        1 => max,
                        2 => max - 1,
                        _ => ((rng.u64() as u128) << 64 | rng.u64() as u128) >> (128 - bits) >> rng.below(*bits as usize),
                    };
                    v.to_string()
                };
                let t = match rng.below(10) {
                    0 if !t.starts_with('-') => format!("+{}", t),
                    1 if !t.starts_with('-') => format!("000{}", t),
                    _ => t,
                };
                pad(rng, &t)
            }
            Leaf::Float(bits) => {
                let t = match rng.below(6) {
                    0 => (*rng.pick(&["0", "-0", "inf", "-inf", "NaN", "1e5", "1E-5", ".5", "5.", "+1.0", "infinity", "nan"])).to_owned(),
                    1 => format!("{}", rng.u64() as i64 as f64 / 1000.0),
                    _ if *bits == 32 => f32::from_bits(rng.u64() as u32).to_string(),
                    _ => f64::from_bits(rng.u64()).to_string(),
                };
                pad(rng, &t)
            }
            Leaf::Restr { known, ws, unknown, .. } => {
                if *unknown && rng.chance(50) {
                    rng.xml_text(max)
                } else if known.is_empty() {
                    rng.xml_text(max)
                } else {
                    let t = *rng.pick(known);
                    match ws {
                        Ws::Preserve => t.to_owned(),
                        Ws::Replace => t.replace(' ', *rng.pick(&[" ", "\t", "\n", "\r"])),
                        Ws::Collapse => pad(rng, t),
                    }
                }
            }
            Leaf::Union { of, .. } => {
                let l = rng.pick(of).clone();
                gen_leaf_text(&l, rng, max)
            }
        };
        if parse_leaf(l, &t).is_ok() {
            return t;
        }
    }
    unreachable!("no text for {:?}", l)
}

/// Text which doesn't parse as `l`, if there is any.
pub fn gen_bad_text(l: &Leaf, rng: &mut Rng) -> Option<String> {
    const BAD: &[&str] = &[
        "", " ", "x", "bad", "!fail", "True", "TRUE", "yes", "2", "-1", "256", "1.5", "0x10", "--1", "1 2", "+", "-", "1e",
        "small", "SMALL", "on", "On ", "99999999999999999999999999999999999999999", "\u{a0}1", "1\u{a0}", "tr ue", "é", "1,5",
        "-129", "128", "32768", "65536", "4294967296", "0.0.0", "e5", "\u{661}", "true\u{2003}", "\u{feff}1",
    ];
    for _ in 0..40 {
        let t = *rng.pick(BAD);
        if parse_leaf(l, t).is_err() {
            return Some(t.to_owned());
        }
    }
    None
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub o: GenOpts,
}

impl<'r> Gen<'r> {
    /// A document the type accepts (unless it competes with itself for names).
    pub fn doc(&mut self, d: &Desc) -> Elem {
        let root = if self.rng.chance(70) { d.root } else { *self.rng.pick(&[("", "root"), ("urn:a", "r"), ("urn:zz", "x")]) };
        let mut e = Elem::new(root.0, root.1);
        self.fill(d, &mut e, 0);
        self.mix(&mut e);
        e
    }

    fn mix(&mut self, e: &mut Elem) {
        if self.o.shuffle {
            self.rng.shuffle(&mut e.children);
            self.rng.shuffle(&mut e.attrs);
        }
    }

    pub fn ty_elem(&mut self, ns: &str, local: &str, ty: &Ty, depth: usize) -> Elem {
        self.o.budget = self.o.budget.saturating_sub(1);
        let mut e = Elem::new(ns, local);
        match ty {
            Ty::Leaf(l) => {
                let t = gen_leaf_text(l, self.rng, self.o.text);
                if !t.is_empty() {
                    e.children.push(Node::T(t));
                }
            }
            Ty::Node(d) => {
                self.fill(d(), &mut e, depth + 1);
                self.mix(&mut e);
            }
        }
        e
    }

    fn present(&mut self, depth: usize) -> bool {
        depth < self.o.max_depth && self.o.budget > 0 && self.rng.chance(self.o.presence)
    }

    fn fill(&mut self, d: &Desc, e: &mut Elem, depth: usize) {
        match &d.kind {
            Kind::Struct(fs) => {
                for f in fs {
                    match f.mode {
                        Mode::Attr => {
                            if (f.card == Card::One && f.default.is_none()) || self.rng.chance(self.o.presence) {
                                let Ty::Leaf(l) = &f.ty else { unreachable!() };
                                let t = gen_leaf_text(l, self.rng, self.o.text);
                                if !e.attrs.iter().any(|a| a.ns == f.ns && a.local == f.local) {
                                    e.attr(f.ns, f.local, &t);
                                }
                            }
                        }
                        Mode::Elem => {
                            let n = match f.card {
                                Card::One if f.default.is_none() => 1,
                                Card::Many | Card::First | Card::Last => {
                                    if self.present(depth) { self.rng.range(1, self.o.max_many) } else { 0 }
                                }
                                _ => self.present(depth) as usize,
                            };
                            for i in 0..n {
                                if i > 8 && self.o.budget == 0 {
                                    break;
                                }
                                let c = self.ty_elem(f.ns, f.local, &f.ty, depth);
                                e.children.push(Node::E(c));
                            }
                        }
                        Mode::Text => {
                            let Ty::Leaf(l) = &f.ty else { unreachable!() };
                            if f.default.is_none() || self.rng.chance(self.o.presence) {
                                let t = gen_leaf_text(l, self.rng, self.o.text);
                                // Several pieces can only be told apart by what's between them, so their order
                                // is only fixed if there's one.
                                if !t.is_empty() {
                                    e.children.push(Node::T(t));
                                }
                            }
                        }
                        Mode::Flatten => {
                            let Ty::Node(n) = &f.ty else { unreachable!() };
                            self.fill(n(), e, depth);
                        }
                    }
                }
            }
            Kind::Choice(vs) => {
                let c: Vec<&Variant> = vs.iter().filter(|v| !v.skip).collect();
                // Avoid endless recursion: prefer alternatives without elements below.
                let shallow: Vec<&Variant> =
                    c.iter().copied().filter(|v| !matches!(v.ty, Some(Ty::Node(_)))).collect();
                let v = if depth >= self.o.max_depth && !shallow.is_empty() {
                    *self.rng.pick(&shallow)
                } else {
                    *self.rng.pick(&c)
                };
                let n = match (&v.ty, v.card) {
                    (None, _) => 1,
                    (_, Card::Many | Card::First | Card::Last) => self.rng.range(1, self.o.max_many),
                    _ => 1,
                };
                for i in 0..n {
                    if i > 8 && self.o.budget == 0 {
                        break;
                    }
                    let x = match &v.ty {
                        None => Elem::new(v.ns, v.local),
                        Some(t) => self.ty_elem(v.ns, v.local, t, depth),
                    };
                    e.children.push(Node::E(x));
                }
            }
        }
    }
}

/// A value the type can take, by way of a document that denotes it. None if the type competes with itself
/// for every name it needs.
pub fn gen_val(d: &Desc, rng: &mut Rng) -> Option<Val> {
    for _ in 0..60 {
        let o = GenOpts::random(rng);
        let doc = Gen { rng, o }.doc(d);
        if let Ok(v) = interp(d, &doc) {
            return Some(v);
        }
    }
    None
}

/// Makes one part of a value huge: many copies of a repeated thing, or a long text.
pub fn enlarge(d: &Desc, v: &mut Val, rng: &mut Rng) -> bool {
    fn strings(l: &Leaf) -> bool {
        matches!(l, Leaf::String | Leaf::Std { .. } | Leaf::Restr { unknown: true, .. })
    }
    /// Goes through what may grow until `left` is used up.
    fn walk(t: &Ty, v: &mut Val, left: &mut usize, f: &mut dyn FnMut(&mut Val)) {
        let mut hit = |v: &mut Val| {
            *left = left.wrapping_sub(1);
            if *left == 0 {
                f(v);
            }
        };
        match (t, v) {
            (t, Val::Opt(Some(x))) => walk(t, x, left, f),
            (t, v @ Val::Many(_)) => {
                let Val::Many(m) = v else { unreachable!() };
                if m.is_empty() {
                    return;
                }
                m.iter_mut().take(3).for_each(|x| walk(t, x, left, f));
                // The inner ones first: a value just enlarged isn't looked at again.
                *left = left.wrapping_sub(1);
                if *left == 0 {
                    f(v);
                }
            }
            (Ty::Leaf(l), v @ Val::Leaf(LeafVal::Str(_))) if strings(l) => hit(v),
            (Ty::Node(n), v) => node(n(), v, left, f),
            _ => {}
        }
    }
    fn node(d: &Desc, v: &mut Val, left: &mut usize, f: &mut dyn FnMut(&mut Val)) {
        match (&d.kind, v) {
            (Kind::Struct(fs), Val::Struct(vs)) => fs.iter().zip(vs).for_each(|(x, v)| walk(&x.ty, v, left, f)),
            (Kind::Choice(vs), Val::Choice(i, Some(p))) => {
                if let Some(t) = &vs[*i].ty {
                    walk(t, p, left, f);
                }
            }
            _ => {}
        }
    }
    let mut left = usize::MAX;
    node(d, v, &mut left, &mut |_| {});
    let n = usize::MAX - left;
    if n == 0 {
        return false;
    }
    let mut k = rng.range(1, n);
    let mut done = false;
    node(d, v, &mut k, &mut |v| match v {
        Val::Many(m) => {
            let weight = format!("{:?}", m[0]).len();
            let n = rng.size(70_000).unwrap_or(20_000).min(4_000_000 / weight);
            while m.len() < n {
                m.push(m[0].clone());
            }
            done = true;
        }
        Val::Leaf(LeafVal::Str(s)) => {
            let n = if rng.chance(50) { *rng.pick(&[1 << 16, 1 << 17, (1 << 20) - 1, 1 << 20, 3 << 19]) } else { rng.size(200_000).unwrap_or(90_000) };
            let c = *rng.pick(&['a', 'é', '中', '\u{1f600}', '&', '<', '"']);
            while s.len() < n {
                s.push(c);
            }
            done = true;
        }
        _ => {}
    });
    done
}

/// Can the format represent the value? Not a defaulted text field whose text is empty, nor a defaulted field which is
/// absent though its default is something, nor a union whose
/// text an earlier alternative takes.
pub fn representable(d: &Desc, v: &Val) -> bool {
    match (&d.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => fs.iter().zip(vs).all(|(f, v)| {
            if let (Mode::Text, Some(dfl), Ty::Leaf(l), Val::Leaf(x)) = (f.mode, f.default, &f.ty, v) {
                if print_leaf(l, x).is_empty() && *v != dfl() {
                    return false;
                }
            }
            if matches!((f.default, v), (Some(dfl), Val::Opt(None)) if dfl() != Val::Opt(None)) {
                return false;
            }
            representable_ty(&f.ty, v)
        }),
        (Kind::Choice(vs), Val::Choice(i, p)) => match (&vs[*i].ty, p) {
            (Some(t), Some(p)) => representable_ty(t, p),
            _ => true,
        },
        _ => true,
    }
}

fn representable_ty(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (_, Val::Opt(None)) => true,
        (_, Val::Opt(Some(v))) => representable_ty(t, v),
        (_, Val::Many(m)) => m.iter().all(|v| representable_ty(t, v)),
        (Ty::Leaf(l), Val::Leaf(x)) => parse_leaf(l, &print_leaf(l, x)).as_ref() == Ok(x),
        (Ty::Node(n), v) => representable(n(), v),
        _ => unreachable!(),
    }
}
