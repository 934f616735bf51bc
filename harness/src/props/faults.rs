//! C02, C13–C16: what happens when things go wrong.

use super::reading::{gen_doc, key};
use super::*;
use crate::tracked;
use std::io::Read;
use std::rc::Rc;

/// A document on the small side.
pub fn small_doc(d: &Desc, rng: &mut Rng) -> Elem {
    let o = GenOpts {
        presence: *rng.pick(&[20, 50, 90]),
        max_many: *rng.pick(&[1, 2, 3]),
        max_depth: rng.range(1, 3),
        text: 6,
        shuffle: rng.chance(80),
        budget: *rng.pick(&[4, 10, 20]),
    };
    Gen { rng, o }.doc(d)
}

/// A small document with a value; None if the type can't have one.
pub fn valid_doc(d: &Desc, rng: &mut Rng) -> Option<(Elem, Val)> {
    let deep = rng.chance(6);
    for i in 0..40 {
        let doc = if deep && i < 5 {
            let o = GenOpts { presence: 75, max_many: 1, max_depth: rng.range(6, 24), text: 6, shuffle: rng.chance(80), budget: 50 };
            Gen { rng, o }.doc(d)
        } else if rng.chance(70) {
            small_doc(d, rng)
        } else {
            gen_doc(d, rng)
        };
        if doc.count() > 60 {
            continue;
        }
        if let Ok(v) = interp(d, &doc) {
            return Some((doc, v));
        }
    }
    None
}

/// All positions up to `n`, if they aren't too many.
fn positions(n: usize, cap: usize, rng: &mut Rng) -> Vec<usize> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..cap / 4).map(|_| rng.below(n)).chain(0..20).chain(n - 40..n).collect();
    v.sort();
    v.dedup();
    v
}

/// Long enough that something may want to shorten it, wherever it would do so.
pub fn long_text(rng: &mut Rng) -> String {
    let n = rng.size(if cfg!(miri) { 70 } else { 1100 }).unwrap_or(60);
    let c = *rng.pick(&['é', '中', '\u{1f600}', 'a', '\u{301}', '"', '\n']);
    let mut s = "a".repeat(rng.below(5));
    while s.len() < n {
        s.push(c);
    }
    s
}

/// The type of the element at `path`, if it's a claimed one with a type of ours.
pub fn typed_at(d: &'static Desc, doc: &Elem, path: &[usize]) -> Option<&'static Desc> {
    let (mut d, mut e) = (d, doc);
    for i in path {
        let c = e.elems().nth(*i)?;
        let mut cl = Vec::new();
        super::reading::claims(d, &mut cl);
        let (_, _, ty) = cl.into_iter().find(|(ns, l, _)| (*ns, *l) == (c.ns.as_str(), c.local.as_str()))?;
        let Some(Ty::Node(n)) = ty else { return None };
        (d, e) = (n(), c);
    }
    Some(d)
}

/// A document of a recursive type, with an element of the type within each, hundreds of times.
pub fn deepen(d: &'static Desc, rng: &mut Rng) -> Option<Elem> {
    for _ in 0..12 {
        let o = GenOpts { presence: *rng.pick(&[60, 90]), max_many: 1, max_depth: 3, text: 4, shuffle: true, budget: 6 };
        let doc = Gen { rng, o }.doc(d);
        let at: Vec<Vec<usize>> =
            doc.paths().into_iter().filter(|p| !p.is_empty() && typed_at(d, &doc, p).map_or(false, |t| t.name == d.name)).collect();
        if at.is_empty() || interp(d, &doc).is_err() {
            continue;
        }
        let p = rng.pick(&at).clone();
        let depth = match rng.below(3) {
            0 => rng.range(100, 300),
            1 => *rng.pick(&[255, 256, 257, 511, 512, 513]),
            _ => rng.size(1100).unwrap_or(700),
        };
        let mut base = doc.clone();
        let slot = base.at_mut(&p).clone();
        // Less of everything else, as there'll be so many.
        let mut all = doc;
        while all.depth() < depth {
            let mut inner = all;
            (inner.ns, inner.local) = (slot.ns.clone(), slot.local.clone());
            all = base.clone();
            *all.at_mut(&p) = inner;
        }
        return Some(all);
    }
    None
}

/// Has fields which don't look at what they're given?
fn blind(d: &Desc) -> bool {
    match &d.kind {
        Kind::Struct(fs) => fs.iter().any(|f| f.card == Card::First),
        Kind::Choice(vs) => vs.iter().any(|v| v.card == Card::First),
    }
}

/// A document with a value in which an element of type `target` is somewhere below the root.
pub fn embed(reg: &[Entry], target: &'static Desc, rng: &mut Rng) -> Option<(Entry, Elem, Vec<usize>)> {
    thread_local! {
        static HOSTS: std::cell::RefCell<std::collections::HashMap<&'static str, Vec<Entry>>> = Default::default();
    }
    let hosts: Vec<Entry> = HOSTS.with(|h| {
        h.borrow_mut()
            .entry(target.name)
            .or_insert_with(|| {
                reg.iter()
                    .copied()
                    .filter(|e| {
                        let mut all = Vec::new();
                        reach((e.desc)(), &mut all);
                        all.iter().any(|d| d.name == target.name) && all.iter().all(|d| !d.competing && !blind(d))
                    })
                    .collect()
            })
            .clone()
    });
    if hosts.is_empty() {
        return None;
    }
    for _ in 0..5 {
        let e = *rng.pick(&hosts);
        let d = (e.desc)();
        let o = GenOpts { presence: *rng.pick(&[40, 70, 90]), max_many: 2, max_depth: rng.range(2, 8), text: 6, shuffle: true, budget: 25 };
        let doc = Gen { rng, o }.doc(d);
        let mut at: Vec<Vec<usize>> = doc
            .paths()
            .into_iter()
            .filter(|p| !p.is_empty() && typed_at(d, &doc, p).map_or(false, |t| t.name == target.name))
            .collect();
        if at.is_empty() || interp(d, &doc).is_err() {
            continue;
        }
        if rng.chance(40) {
            at.sort_by_key(|p| p.len());
            return Some((e, doc, at.pop().unwrap()));
        }
        let p = rng.pick(&at).clone();
        return Some((e, doc, p));
    }
    None
}

/// Changes one thing, so that there's no value anymore.
pub fn one_defect(d: &'static Desc, doc: &Elem, rng: &mut Rng) -> Option<(Elem, Fault)> {
    const BAD: &[&str] = &["!fail", "bad", "", " ", "x1", "-", "256", "-1", "1.5.", "TRUE", "99999999999999999999999999999999999999999"];
    let paths = doc.paths();
    for _ in 0..40 {
        let mut next = doc.clone();
        let p = if rng.chance(30) {
            paths.iter().max_by_key(|p| p.len()).unwrap().clone()
        } else {
            rng.pick(&paths).clone()
        };
        let x = next.at_mut(&p);
        let elem_slots: Vec<usize> =
            (0..x.children.len()).filter(|i| matches!(x.children[*i], Node::E(_))).collect();
        let at = rng.below(x.children.len() + 1);
        match rng.below(8) {
            0 if !elem_slots.is_empty() => {
                x.children.remove(*rng.pick(&elem_slots));
            }
            1 if !x.attrs.is_empty() => {
                x.attrs.remove(rng.below(x.attrs.len()));
            }
            2 if !elem_slots.is_empty() => {
                let c = x.children[*rng.pick(&elem_slots)].clone();
                x.children.insert(at, c);
            }
            3 | 4 => {
                let t = match rng.below(12) {
                    0 => long_text(rng),
                    1..=3 => rng.xml_text(6),
                    _ => (*rng.pick(BAD)).to_owned(),
                };
                if rng.chance(70) {
                    x.children.retain(|c| matches!(c, Node::E(_)));
                }
                let at = rng.below(x.children.len() + 1);
                x.children.insert(at, Node::T(t));
            }
            5 if !x.attrs.is_empty() => {
                let i = rng.below(x.attrs.len());
                x.attrs[i].value = if rng.chance(8) { long_text(rng) } else { (*rng.pick(BAD)).to_owned() };
            }
            6 => {
                x.children.insert(at, Node::E(Elem::new(*rng.pick(&["", "urn:a"]), "unexpected")));
            }
            _ => {
                let (x, d) = match typed_at(d, doc, &p) {
                    Some(d) => (x, d),
                    None => (&mut next, d),
                };
                let mut cl = Vec::new();
                super::reading::claims(d, &mut cl);
                if cl.is_empty() {
                    continue;
                }
                let c = super::reading::claim_elem(rng.pick(&cl), rng);
                let at = rng.below(x.children.len() + 1);
                x.children.insert(at, Node::E(c));
            }
        }
        if let Err(f) = interp(d, &next) {
            return Some((next, f));
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Sources
// ---------------------------------------------------------------------------------------------

#[derive(Debug)]
pub struct Marker(pub u64);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "marker {}", self.0)
    }
}
impl std::error::Error for Marker {}

/// Is the marker among the error's sources?
fn marked(e: &static_xml::de::Error, m: u64) -> bool {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e);
    let mut n = 0;
    while let Some(c) = cur {
        n += 1;
        if n > 100 {
            return false;
        }
        if let Some(x) = c.downcast_ref::<Marker>() {
            return x.0 == m;
        }
        if let Some(io) = c.downcast_ref::<std::io::Error>() {
            if let Some(x) = io.get_ref().and_then(|x| x.downcast_ref::<Marker>()) {
                return x.0 == m;
            }
        }
        cur = c.source();
    }
    false
}

/// Delivers bytes in pieces, with interruptions, and possibly a failure in place of the byte at `fail_at`.
pub struct Source<'a> {
    data: &'a [u8],
    at: usize,
    sizes: Sizes,
    /// Percentage.
    interrupt: usize,
    rng: Rng,
    fail_at: Option<(usize, std::io::ErrorKind, u64)>,
    /// Fails this often before it goes on.
    times: usize,
    pub failed: Rc<std::cell::Cell<bool>>,
    pub reads: Rc<std::cell::Cell<u64>>,
}

#[derive(Clone, Copy, Debug)]
pub enum Sizes {
    All,
    Exactly(usize),
    UpTo(usize),
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], sizes: Sizes, interrupt: usize, rng: Rng) -> Self {
        Source { data, at: 0, sizes, interrupt, rng, fail_at: None, times: usize::MAX, failed: Default::default(), reads: Default::default() }
    }
    fn failing(data: &'a [u8], at: usize, kind: std::io::ErrorKind, marker: u64, sizes: Sizes, rng: Rng) -> Self {
        let mut s = Source::new(data, sizes, 0, rng);
        s.fail_at = Some((at, kind, marker));
        s
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.chance(self.interrupt) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.data.len() - self.at);
        n = match self.sizes {
            Sizes::All => n,
            Sizes::Exactly(k) => n.min(k),
            Sizes::UpTo(k) => n.min(1 + self.rng.below(k)),
        };
        if let Some((f, kind, m)) = self.fail_at {
            n = n.min(f - self.at);
            if n == 0 {
                self.failed.set(true);
                self.times -= 1;
                if self.times == 0 {
                    self.fail_at = None;
                }
                return Err(std::io::Error::new(kind, Marker(m)));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------------------------

/// What a read with the books kept came to.
enum Kept {
    Val(Val),
    Err(String),
    Panic,
}

/// Reads, keeping the books. Reports what doesn't balance.
fn balanced(ctx: &mut Ctx, e: &Entry, src: &mut dyn Read, setup: &dyn Fn(&mut tracked::Registry), who: &dyn Fn() -> String) -> Kept {
    let d = (e.desc)();
    tracked::reset();
    tracked::with(|r| setup(r));
    let mut problems: Vec<String> = Vec::new();
    let mut kept = Kept::Panic;
    let mut live = None;
    let before = crate::alloc::live();
    let r = guard(|| (e.read_keep)(src));
    let held = crate::alloc::live();
    let mut ours = (0isize, 0isize);
    match r {
        Ok(Ok(v)) => {
            live = Some(tracked::live());
            let b = crate::alloc::live();
            kept = Kept::Val((e.keep_val)(&*v));
            let a = crate::alloc::live();
            ours = (a.0 - b.0, a.1 - b.1);
            drop(v);
        }
        Ok(Err(x)) => {
            if tracked::live() != 0 {
                problems.push(format!("{} values alive after the read failed", tracked::live()));
            }
            let b = crate::alloc::live();
            kept = Kept::Err(x.to_string());
            let a = crate::alloc::live();
            ours = (a.0 - b.0, a.1 - b.1);
            drop(x);
        }
        Err(p) if p == "injected" => {
            drop(p);
            if tracked::live() != 0 {
                problems.push(format!("{} values alive after a parser panicked", tracked::live()));
            }
        }
        Err(p) => problems.push(p),
    }
    let after = crate::alloc::live();
    if problems.is_empty() && (after.0 - ours.0, after.1 - ours.1) != before {
        problems.push(format!(
            "{} bytes in {} blocks leaked (with the result: {} bytes)",
            after.0 - ours.0 - before.0,
            after.1 - ours.1 - before.1,
            held.0 - before.0
        ));
    }
    if let (Kept::Val(v), Some(n)) = (&mut kept, live) {
        let mut want = 0;
        each_tracked(d, v, &mut |_| want += 1);
        if want != n {
            problems.push(format!("{} values alive in a result of {}", n, want));
        }
    }
    tracked::with(|r| {
        problems.append(&mut r.errors);
        if r.created != r.dropped {
            problems.push(format!("{} values created, {} dropped", r.created, r.dropped));
        }
    });
    tracked::with(|r| {
        ctx.add("values created", r.created);
        ctx.add("values dropped", r.dropped);
    });
    for p in problems {
        ctx.violation(format!("{}; {}", p, who()));
    }
    kept
}

pub fn c02(ctx: &mut Ctx) {
    let reg: Vec<Entry> = registry().into_iter().filter(|e| has_tracked((e.desc)())).collect();
    ctx.add("types", reg.len() as u64);
    // Whatever is allocated once should be by now.
    for e in &reg {
        let _ = guard(|| (e.read_keep)(&mut &b"<a b=\"\xff"[..]).err().map(|e| e.to_string()));
        let _ = guard(|| (e.read_keep)(&mut &b"<a><b/></a>"[..]).map(drop).err().map(|e| e.to_string()));
    }
    tracked::with(|r| r.errors.reserve(64));
    ctx.cases(6_000, 300_000);
    let nothing = |_: &mut tracked::Registry| {};
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some((doc, v)) = valid_doc(d, &mut rng) else {
            ctx.hit("no valid document");
            continue;
        };
        let style = if rng.chance(60) { Style::plain() } else { Style::random(&mut rng) };
        let text = xml::render(&doc, &style, &mut rng);
        let bytes = text.as_bytes();
        let k0 = key(e, &text);

        // Success.
        let kept = balanced(ctx, e, &mut &bytes[..], &nothing, &|| format!("complete {}", show_case(e, &text)));
        ctx.eval(k0);
        match kept {
            Kept::Val(w) => {
                if let Some(m) = diff_val(&v, &w) {
                    ctx.violation(format!("{}; {}", m, show_case(e, &text)));
                }
                ctx.hit("success");
            }
            _ => ctx.violation(format!("no value for {}", show_case(e, &text))),
        }
        let parses = tracked::with(|r| r.parses);

        // Each parser fails, each parser panics.
        for k in 0..parses.min(40) {
            for panic in [false, true] {
                let kept = balanced(
                    ctx,
                    e,
                    &mut &bytes[..],
                    &|r| if panic { r.panic_at = Some(k) } else { r.fail_at = Some(k) },
                    &|| format!("parse {} {} {}", k, if panic { "panics" } else { "fails" }, show_case(e, &text)),
                );
                ctx.eval(k0 ^ mix(1 + 2 * k + panic as u64));
                match (kept, panic) {
                    (Kept::Panic, true) => ctx.hit("parser panics"),
                    (Kept::Err(_), false) => ctx.hit("parser fails"),
                    _ => ctx.violation(format!("parse {} (panic {}) went unnoticed: {}", k, panic, show_case(e, &text))),
                }
            }
        }

        // Cut off at each byte, or the source fails there.
        let step = if bytes.len() > 700 { 1 + rng.below(3) } else { 1 };
        for k in positions(bytes.len(), 2000, &mut rng).into_iter().step_by(step) {
            if rng.chance(50) {
                balanced(ctx, e, &mut &bytes[..k], &nothing, &|| format!("cut off at {} {}", k, show_case(e, &text)));
                ctx.hit("cut off");
            } else {
                let mut s = Source::failing(bytes, k, std::io::ErrorKind::Other, 0, Sizes::UpTo(9), rng.fork());
                // The source's own allocations come and go with it.
                balanced(ctx, e, &mut s, &nothing, &|| format!("source fails at {} {}", k, show_case(e, &text)));
                ctx.hit("source fails");
            }
            ctx.eval(k0 ^ mix(1 << 20 | k as u64));
        }

        // A field missing, duplicate, unparsable, another alternative.
        for _ in 0..12 {
            let Some((bad, f)) = one_defect(d, &doc, &mut rng) else { continue };
            let text = xml::render(&bad, &style, &mut rng);
            let kept = balanced(ctx, e, &mut text.as_bytes(), &nothing, &|| show_case(e, &text));
            ctx.eval(key(e, &text));
            if !matches!(kept, Kept::Err(_)) {
                ctx.violation(format!("no error ({:?}) for {}", f, show_case(e, &text)));
            }
            ctx.hit(&format!("{:?}", f.kind));
        }

        // Anything else.
        for _ in 0..10 {
            let mut b = bytes.to_vec();
            super::faults::mutate_bytes(&mut b, &[], &mut rng);
            balanced(ctx, e, &mut &b[..], &nothing, &|| format!("type {} document {:?}", e.name, String::from_utf8_lossy(&b)));
            ctx.eval(hash(&b) ^ hash(e.name.as_bytes()));
            ctx.hit("mutated bytes");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------------------------

const TOKENS: &[&[u8]] = &[
    b"<", b">", b"/>", b"</", b"<a>", b"</a>", b"<a/>", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<?xml version=\"1.0\"?>",
    b"<!DOCTYPE a>", b"<!DOCTYPE a [", b"]>", b"<!ENTITY x \"y\">", b"&x;", b"&amp;", b"&#0;", b"&#xD800;", b"&#x110000;",
    b"&#99999999999;", b"&", b";", b"=", b"\"", b"'", b" ", b"\n", b"\r\n", b"xmlns=\"\"", b"xmlns:a=\"\"", b" xmlns:xml=\"x\"",
    b" xmlns=\"urn:a\"", b"xml:", b"a:b:c", b":", b"\0", b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
    b"\xef\xbb\xbf", b"\xff\xfe<\0a\0", b"\xfe\xff\0<", b"\xf0\x9f\x98\x80", b"standalone=\"yes\"", b"encoding=\"UTF-16\"", b" a=\"1\" a=\"2\"",
    b"%", b"<!", b"<!ELEMENT a ANY>", b"1", b"true",
];

pub fn mutate_bytes(b: &mut Vec<u8>, other: &[u8], rng: &mut Rng) {
    for _ in 0..rng.range(1, 5) {
        let at = rng.below(b.len() + 1);
        let len = rng.below(12.min(b.len() - at + 1));
        match rng.below(10) {
            0 if at < b.len() => b[at] ^= 1 << rng.below(8),
            1 if at < b.len() => b[at] = rng.u64() as u8,
            2 => {
                b.drain(at..at + len);
            }
            3 => {
                let s: Vec<u8> = b[at..at + len].to_vec();
                let to = rng.below(b.len() + 1);
                b.splice(to..to, s);
            }
            4..=6 => {
                let t = *rng.pick(TOKENS);
                b.splice(at..at, t.iter().copied());
            }
            7 => {
                let n = rng.below(4);
                let s: Vec<u8> = (0..n).map(|_| rng.u64() as u8).collect();
                b.splice(at..at, s);
            }
            8 if !other.is_empty() => {
                let (i, j) = (rng.below(other.len()), rng.below(other.len()));
                b.splice(at..at, other[i.min(j)..i.max(j)].iter().copied());
            }
            _ => b.truncate(b.len().saturating_sub(len)),
        }
    }
}

/// Everything that can be asked of an error.
fn inspect(x: &static_xml::de::Error) -> usize {
    use std::error::Error;
    let mut n = x.to_string().len() + format!("{:?} {:#?} {:>5}", x, x, x).len();
    for s in x.stack() {
        n += format!("{} {} {:?}", s.name, s.pos, s).len();
    }
    let mut cur = x.source();
    let mut depth = 0;
    while let Some(c) = cur {
        n += format!("{} {:?}", c, c).len();
        cur = c.source();
        depth += 1;
        assert!(depth < 1000, "endless sources");
    }
    let y = x.clone();
    assert_eq!(y.to_string(), x.to_string());
    n
}

fn ends(ctx: &mut Ctx, e: &Entry, b: &[u8], what: &str) {
    let r = guard(|| (e.read)(&mut &b[..]));
    ctx.eval(hash(b) ^ hash(e.name.as_bytes()));
    let who = || format!("{}: type {} document {:?}", what, e.name, clip(&String::from_utf8_lossy(b), 3000));
    match r {
        Ok(Ok(_)) => ctx.hit(&format!("{}: value", what)),
        Ok(Err(x)) => {
            match guard(|| inspect(&x)) {
                Ok(0) => ctx.violation(format!("empty message; {}", who())),
                Ok(_) => {}
                Err(p) => ctx.violation(format!("looking at the error: {}; {}", p, who())),
            }
            ctx.hit(&format!("{}: error", what));
            if ctx.samples.len() < 3 {
                ctx.sample(|| format!("{} => {}", who(), clip(&x.to_string(), 200)));
            }
        }
        Err(p) => ctx.violation(format!("{}; {}", p, who())),
    }
    if let Ok(s) = std::str::from_utf8(b) {
        // The other entry point.
        if let Err(p) = guard(|| (e.read_str)(s).is_ok()) {
            ctx.violation(format!("from_str: {}; {}", p, who()));
        }
    }
}

/// Runs on a thread with a small stack.
fn small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(192 << 10).spawn(f).unwrap().join().unwrap()
}

pub fn c13(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(60_000, 5_000_000);
    let mut previous: Vec<u8> = Vec::new();
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        match rng.below(40) {
            0 => {
                let n = rng.below(200);
                let b: Vec<u8> = if rng.chance(50) {
                    (0..n).map(|_| rng.u64() as u8).collect()
                } else {
                    let mut b = Vec::new();
                    for _ in 0..n / 8 {
                        let t: &[u8] = *rng.pick(TOKENS);
                        b.extend_from_slice(t);
                    }
                    b
                };
                ends(ctx, e, &b, "random bytes");
            }
            1 => {
                // Deep nesting nobody claims, in each element of a document.
                let Some((mut doc, v)) = valid_doc(d, &mut rng) else { continue };
                let p = rng.pick(&doc.paths()).clone();
                let x = doc.at_mut(&p);
                // Where it's text, it's an error; elsewhere it changes nothing.
                let at = rng.below(x.children.len() + 1);
                x.children.insert(at, Node::E(Elem::new("", "unclaimed-deep")));
                let expected = interp(d, &doc).is_ok();
                let depth = *rng.pick(&[100, 1000, 3000]);
                let text = xml::render(&doc, &Style::plain(), &mut rng);
                let (open, close) = match rng.below(3) {
                    0 => ("<unclaimed-deep>".to_owned(), "</unclaimed-deep>".to_owned()),
                    1 => {
                        let n = &doc.local;
                        (format!("<{}>", n), format!("</{}>", n))
                    }
                    _ => ("<j a=\"1\">text".to_owned(), "<k/></j>".to_owned()),
                };
                let inner = format!("{}{}", open.repeat(depth), close.repeat(depth));
                let deep = text
                    .replace("<unclaimed-deep xmlns=\"\"/>", &format!("<unclaimed-deep xmlns=\"\">{}</unclaimed-deep>", inner))
                    .replace("<unclaimed-deep/>", &format!("<unclaimed-deep>{}</unclaimed-deep>", inner));
                if deep.len() == text.len() {
                    ctx.hit("deep: not placed");
                    continue;
                }
                let cut = if rng.chance(30) { rng.range(text.len() / 2, deep.len()) } else { deep.len() };
                let (e2, bytes) = (*e, deep.as_bytes()[..deep.floor(cut)].to_vec());
                let complete = bytes.len() == deep.len();
                let got = small_stack(move || {
                    let o = outcome(|| (e2.read)(&mut &bytes[..]));
                    let insp = match &o {
                        Outcome::Err(x) => guard(|| inspect(x)).map(|_| ()).err(),
                        _ => None,
                    };
                    match o {
                        Outcome::Val(v) => (Some(v), None),
                        Outcome::Err(_) => (None, insp),
                        Outcome::Panic(p) => (None, Some(p)),
                    }
                });
                ctx.eval(hash(deep.as_bytes()) ^ mix(cut as u64) ^ hash(e.name.as_bytes()));
                ctx.hit(&format!("deep {}", depth));
                let who = || format!("{} levels of {} cut at {} in {}", depth, open, cut, show_case(e, &text));
                if let Some(p) = got.1 {
                    ctx.violation(format!("{}; {}", p, who()));
                } else if complete && expected && got.0.as_ref() != Some(&v) {
                    ctx.violation(format!("value {:?}; {}", got.0, who()));
                } else if complete && !expected && got.0.is_some() {
                    ctx.violation(format!("no error; {}", who()));
                }
            }
            2 => {
                // Wide: many attributes, many children, long text.
                let mut doc = small_doc(d, &mut rng);
                let n = rng.range(200, 2000);
                match rng.below(4) {
                    0 => (0..n).for_each(|i| doc.attr("", &format!("at{}", i), "v")),
                    1 => (0..n).for_each(|_| doc.children.push(Node::E(Elem::new("urn:wide", "c")))),
                    2 => doc.children.push(Node::T("text&<".repeat(n))),
                    _ => (0..n).for_each(|_| doc.children.push(Node::Comment("c".into()))),
                }
                let t = xml::render(&doc, &Style::plain(), &mut rng);
                ends(ctx, e, t.as_bytes(), "wide");
            }
            3..=5 => {
                // Long or odd names and texts in places where they matter.
                let mut doc = small_doc(d, &mut rng);
                for _ in 0..rng.range(1, 3) {
                    let p = rng.pick(&doc.paths()).clone();
                    let t = long_text(&mut rng);
                    let name = || format!("n{}", t.replace(['"', '\n', '\u{1f600}'], "é"));
                    let x = doc.at_mut(&p);
                    match rng.below(6) {
                        0 if !x.attrs.is_empty() => {
                            let i = rng.below(x.attrs.len());
                            x.attrs[i].value = t;
                        }
                        1 => x.local = name(),
                        2 => x.ns = format!("urn:{}", t),
                        3 => x.attr("", &name(), "v"),
                        4 => x.children.push(Node::E(Elem::new("", &name()))),
                        _ => {
                            x.children.retain(|c| matches!(c, Node::E(_)));
                            x.children.push(Node::T(t));
                        }
                    }
                }
                let t = xml::render(&doc, &Style::random(&mut rng), &mut rng);
                ends(ctx, e, t.as_bytes(), "long names and texts");
            }
            _ => {
                let doc = small_doc(d, &mut rng);
                let style = Style::random(&mut rng);
                let mut b = xml::render(&doc, &style, &mut rng).into_bytes();
                if rng.chance(15) {
                    // Another encoding.
                    let s = String::from_utf8(b).unwrap();
                    let big = rng.chance(50);
                    b = std::iter::once(0xfeff).chain(s.encode_utf16()).flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect();
                } else {
                    mutate_bytes(&mut b, &previous, &mut rng);
                }
                ends(ctx, e, &b, "mutated");
                previous = b;
            }
        }
    }
}

trait Floor {
    fn floor(&self, i: usize) -> usize;
}
impl Floor for String {
    fn floor(&self, mut i: usize) -> usize {
        i = i.min(self.len());
        while !self.is_char_boundary(i) {
            i -= 1;
        }
        i
    }
}

// ---------------------------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------------------------

/// What may be compared of a result.
fn gist(o: &Outcome) -> String {
    match o {
        Outcome::Val(v) => format!("value {:?}", v),
        Outcome::Err(e) => {
            let stack: Vec<String> = e.stack().iter().map(|s| format!("{:?} {}", s.name, s.pos)).collect();
            format!("error {} / {:?}", e, stack)
        }
        Outcome::Panic(p) => p.clone(),
    }
}

pub fn c14(ctx: &mut Ctx) {
    use std::io::ErrorKind::*;
    let reg = registry();
    ctx.cases(8_000, 400_000);
    let mut marker = 0;
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some((doc, _)) = valid_doc(d, &mut rng) else { continue };
        let style = Style::random(&mut rng);
        let mut bytes = xml::render(&doc, &style, &mut rng).into_bytes();
        let valid = rng.chance(60);
        if !valid {
            match rng.below(3) {
                0 => bytes.truncate(rng.below(bytes.len())),
                1 => mutate_bytes(&mut bytes, &[], &mut rng),
                _ => {
                    if let Some((x, _)) = one_defect(d, &doc, &mut rng) {
                        bytes = xml::render(&x, &style, &mut rng).into_bytes();
                    }
                }
            }
        }
        let who = || format!("type {} document {:?}", e.name, clip(&String::from_utf8_lossy(&bytes), 3000));
        let whole = outcome(|| (e.read)(&mut &bytes[..]));
        let want = gist(&whole);
        let mut plans = vec![(Sizes::Exactly(1), 0), (Sizes::Exactly(2), 0), (Sizes::Exactly(3), 20), (Sizes::Exactly(1), 40)];
        plans.push((Sizes::UpTo(rng.range(2, 30)), *rng.pick(&[0, 10, 50])));
        plans.push((Sizes::All, 60));
        for (sizes, interrupt) in plans {
            let mut s = Source::new(&bytes, sizes, interrupt, rng.fork());
            let got = gist(&outcome(|| (e.read)(&mut s)));
            ctx.eval(hash(&bytes) ^ hash(e.name.as_bytes()) ^ mix(interrupt as u64) ^ hash(format!("{:?}", sizes).as_bytes()));
            ctx.hit(&format!("delivered {}{}", if let Sizes::Exactly(1) = sizes { "by single bytes" } else { "otherwise" }, if interrupt > 0 { ", interrupted" } else { "" }));
            ctx.add("reads of the source", s.reads.get());
            if got != want {
                ctx.violation(format!("{:?}, {}% interrupted: {} instead of {}; {}", sizes, interrupt, got, want, who()));
            }
        }
        // The source fails in place of each byte, or of the end.
        if !valid {
            continue;
        }
        for k in positions(bytes.len() + 1, 2500, &mut rng) {
            marker += 1;
            let kind = *rng.pick(&[
                Other, UnexpectedEof, WouldBlock, TimedOut, ConnectionReset, ConnectionAborted, InvalidData, InvalidInput, PermissionDenied, BrokenPipe,
                NotConnected, WriteZero, NotFound, OutOfMemory, Unsupported,
            ]);
            let sizes = *rng.pick(&[Sizes::All, Sizes::Exactly(1), Sizes::UpTo(7)]);
            let mut s = Source::failing(&bytes, k, kind, marker, sizes, rng.fork());
            let passing = rng.chance(50);
            if passing {
                // It would go on if asked again.
                s.times = rng.range(1, 3);
            }
            let o = outcome(|| (e.read)(&mut s));
            ctx.eval(hash(&bytes) ^ hash(e.name.as_bytes()) ^ mix(1 << 32 | k as u64));
            ctx.hit(if passing { "passing source failures" } else { "source failures" });
            match &o {
                Outcome::Err(x) if marked(x, marker) => {}
                o => ctx.violation(format!(
                    "source fails with {:?} at {} of {} (asked: {}): {}; {}",
                    kind, k, bytes.len(), s.failed.get(), clip(&o.show(), 500), who()
                )),
            }
        }
        ctx.sample(who);
    }
}

// ---------------------------------------------------------------------------------------------
// Tokens of a rendered document
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum TokKind {
    /// Self-closing?
    Start(bool),
    End,
    Comment,
    Pi,
    CData,
    Doctype,
    Text,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: TokKind,
    pub from: usize,
    pub to: usize,
}

/// Splits a well-formed document.
pub fn tokens(s: &str) -> Vec<Tok> {
    let mut out = Vec::new();
    let mut i = 0;
    let b = s.as_bytes();
    let upto = |i: usize, end: &str| i + s[i..].find(end).unwrap() + end.len();
    while i < s.len() {
        let rest = &s[i..];
        let (kind, to) = if rest.starts_with("<!--") {
            (TokKind::Comment, upto(i + 4, "-->"))
        } else if rest.starts_with("<![CDATA[") {
            (TokKind::CData, upto(i, "]]>"))
        } else if rest.starts_with("<?") {
            (TokKind::Pi, upto(i, "?>"))
        } else if rest.starts_with("<!") {
            (TokKind::Doctype, upto(i, ">"))
        } else if rest.starts_with("</") {
            (TokKind::End, upto(i, ">"))
        } else if rest.starts_with('<') {
            let mut j = i + 1;
            let mut q = 0;
            while q != 0 || b[j] != b'>' {
                if q == 0 && (b[j] == b'"' || b[j] == b'\'') {
                    q = b[j];
                } else if b[j] == q {
                    q = 0;
                }
                j += 1;
            }
            (TokKind::Start(b[j - 1] == b'/'), j + 1)
        } else {
            (TokKind::Text, rest.find('<').map_or(s.len(), |n| i + n))
        };
        out.push(Tok { kind, from: i, to });
        i = to;
    }
    out
}

/// The end of the root element.
pub fn root_end(toks: &[Tok]) -> usize {
    let mut depth = 0;
    for t in toks {
        match t.kind {
            TokKind::Start(false) => depth += 1,
            TokKind::Start(true) if depth == 0 => return t.to,
            TokKind::End => {
                depth -= 1;
                if depth == 0 {
                    return t.to;
                }
            }
            _ => {}
        }
    }
    unreachable!()
}

/// End of the tag name starting at `i`.
fn name_end(s: &str, i: usize) -> usize {
    i + s[i..].find(|c: char| matches!(c, ' ' | '\t' | '\r' | '\n' | '/' | '>')).unwrap()
}

// ---------------------------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------------------------

/// Breaks one rule every document must follow. Returns what was done.
fn break_structure(s: &str, toks: &[Tok], rng: &mut Rng) -> Option<(&'static str, String)> {
    let starts: Vec<&Tok> = toks.iter().filter(|t| matches!(t.kind, TokKind::Start(_))).collect();
    let open: Vec<&Tok> = toks.iter().filter(|t| t.kind == TokKind::Start(false)).collect();
    let ends: Vec<&Tok> = toks.iter().filter(|t| t.kind == TokKind::End).collect();
    let end = root_end(toks);
    let mut o = s.to_owned();
    // A place inside the root, between tokens.
    let inside: Vec<usize> = toks.iter().filter(|t| t.from > starts[0].from && t.from < end).map(|t| t.from).collect();
    let what = match rng.below(16) {
        0 => {
            if ends.is_empty() {
                return None;
            }
            let t = *rng.pick(&ends);
            o.replace_range(t.from..t.to, "");
            "end tag removed"
        }
        1 => {
            if open.is_empty() {
                return None;
            }
            let t = *rng.pick(&open);
            o.replace_range(t.from..t.to, "");
            "start tag removed"
        }
        2 => {
            if ends.is_empty() {
                return None;
            }
            let t = *rng.pick(&ends);
            let n = name_end(s, t.from + 2);
            o.insert_str(n, *rng.pick(&["x", "1", "-"]));
            "end tag renamed"
        }
        3 => {
            let t = *rng.pick(&starts);
            if t.kind != TokKind::Start(false) {
                return None;
            }
            o.insert_str(name_end(s, t.from + 1), "x");
            "start tag renamed"
        }
        4 => {
            if inside.is_empty() {
                return None;
            }
            o.insert_str(*rng.pick(&inside), *rng.pick(&["<extra>", "</extra>", "<extra a=\"b\">", "<a><b></a></b>"]));
            "unbalanced tag added"
        }
        5 => {
            // Right there, at the very end, or in between.
            let at = match rng.below(3) {
                0 => end,
                1 => o.len(),
                _ => toks.iter().filter(|t| t.from >= end).map(|t| t.to).nth(rng.below(40)).unwrap_or(end),
            };
            o.insert_str(at, *rng.pick(&["<second/>", "<second></second>", "text", "<![CDATA[x]]>", "</x>", "<second>"]));
            "something after the root"
        }
        6 => {
            let t = *rng.pick(&starts);
            o.insert_str(name_end(s, t.from + 1), " undeclared-prefix:at=\"1\"");
            "unbound prefix on an attribute"
        }
        7 => {
            let t = *rng.pick(&starts);
            let n = name_end(s, t.from + 1);
            if s[t.from + 1..n].contains(':') {
                return None;
            }
            if t.kind == TokKind::Start(true) {
                o.insert_str(t.from + 1, "undeclared-prefix:");
            } else {
                o = insert_both(s, toks, t, "undeclared-prefix:")?;
            }
            "unbound prefix on an element"
        }
        8 => {
            let t = *rng.pick(&starts);
            o.insert_str(name_end(s, t.from + 1), " dup=\"1\" dup=\"1\"");
            "duplicate attribute"
        }
        9 => {
            let t = *rng.pick(&starts);
            // Repeats an attribute that's there.
            let tag = &s[t.from..t.to];
            let at = name_end(s, t.from + 1) - t.from;
            let eq = at + tag[at..].find('=')?;
            let n = tag[at..eq].trim().to_owned();
            if n.is_empty() || n.contains(char::is_whitespace) || n.starts_with("xmlns") {
                return None;
            }
            o.insert_str(name_end(s, t.from + 1), &format!(" {}='again'", n));
            "attribute repeated"
        }
        10 => {
            let t = *rng.pick(&starts);
            let bad = *rng.pick(&[" novalue", " a=\"<\"", " a=\"&\"", " a=\"&nosuch;\"", " =\"x\"", " a=\"open<", ""]);
            let bad = if bad.is_empty() { format!(" a='{}'", undeclared_entity(rng)) } else { bad.to_owned() };
            o.insert_str(name_end(s, t.from + 1), &bad);
            "malformed attribute"
        }
        11 => {
            if inside.is_empty() {
                return None;
            }
            if rng.chance(50) {
                o.insert_str(*rng.pick(&inside), &undeclared_entity(rng));
                return Some(("undeclared entity", o));
            }
            o.insert_str(*rng.pick(&inside), *rng.pick(&["&nosuch;", "&;", "& ", "&#;", "&#x;", "&#xZZ;", "&#1114112;", "&#0;"]));
            "bad reference"
        }
        12 => {
            if inside.is_empty() {
                return None;
            }
            o.insert_str(*rng.pick(&inside), *rng.pick(&["< ", "< a/>", "<1/>", "<>", "</>", "<a<", "<!X>", "<![X[]]>"]));
            "bad markup"
        }
        13 => {
            if inside.is_empty() {
                return None;
            }
            let at = *rng.pick(&inside);
            let c = *rng.pick(&["<!-- open", "<![CDATA[ open", "<?open "]);
            // Nothing after it may close it.
            let close = if c.starts_with("<!-") { "-->" } else if c.starts_with("<![") { "]]>" } else { "?>" };
            if s[at..].contains(close) {
                return None;
            }
            o.insert_str(at, c);
            "unclosed comment, section or instruction"
        }
        14 => {
            // Ends crossed over.
            let i = (0..toks.len().saturating_sub(1)).find(|i| {
                toks[*i].kind == TokKind::End && toks[i + 1].kind == TokKind::End && s[toks[*i].from..name_end(s, toks[*i].from + 2)] != s[toks[i + 1].from..name_end(s, toks[i + 1].from + 2)]
            })?;
            let (a, b) = (&toks[i], &toks[i + 1]);
            o.replace_range(a.from..b.to, &format!("{}{}", &s[b.from..b.to], &s[a.from..a.to]));
            "end tags exchanged"
        }
        _ => {
            o = match rng.below(5) {
                0 => String::new(),
                1 => "<?xml version=\"1.0\"?>".to_owned(),
                2 => s[..starts[0].from].to_owned(),
                3 => format!("text{}", s),
                _ => format!("{}{}", &s[..end], &s[starts[0].from..end]),
            };
            "no or two roots"
        }
    };
    Some((what, o))
}

/// A reference to an entity which others know, but XML doesn't.
fn undeclared_entity(rng: &mut Rng) -> String {
    const HTML: &[&str] = &[
        "nbsp", "copy", "reg", "eacute", "uuml", "euro", "hellip", "mdash", "ndash", "trade", "times", "Auml", "szlig", "middot",
        "AMP", "LT", "GT", "QUOT", "Amp", "Lt", "Apos", "newline", "tab", "nl", "x", "xml",
    ];
    loop {
        let n = if rng.chance(60) { (*rng.pick(HTML)).to_owned() } else { rng.name_word() };
        if !matches!(n.as_str(), "amp" | "lt" | "gt" | "quot" | "apos") {
            return format!("&{};", n);
        }
    }
}

/// Inserts into the name of an element, in both of its tags.
fn insert_both(s: &str, toks: &[Tok], start: &Tok, what: &str) -> Option<String> {
    let mut depth = 0;
    for t in toks.iter().filter(|t| t.from >= start.from) {
        match t.kind {
            TokKind::Start(false) => depth += 1,
            TokKind::End => {
                depth -= 1;
                if depth == 0 {
                    let mut o = s.to_owned();
                    o.insert_str(t.from + 2, what);
                    o.insert_str(start.from + 1, what);
                    return Some(o);
                }
            }
            _ => {}
        }
    }
    None
}

/// A root type that reads its element in one of several ways, none of which needs anything in it.
struct Unread;

thread_local! {
    static WAY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Unread {
    const WAYS: usize = 8;
}

impl static_xml::de::Deserialize for Unread {
    fn deserialize(e: static_xml::de::ElementReader<'_>) -> Result<Self, static_xml::de::VisitorError> {
        match WAY.with(|w| w.get()) {
            0 => {}
            1 => drop(e),
            2 => drop(e.read_string()),
            _ => drop(e.read_to(&mut Skims)?),
        }
        Ok(Unread)
    }
}

struct Skims;

impl static_xml::de::ElementVisitor for Skims {
    fn element<'a>(
        &mut self,
        c: static_xml::de::ElementReader<'a>,
    ) -> Result<Option<static_xml::de::ElementReader<'a>>, static_xml::de::VisitorError> {
        match WAY.with(|w| w.get()) {
            3 => return Ok(Some(c)),
            4 => drop(c),
            5 => drop(c.read_string()),
            6 => drop(c.read_to(&mut Skims)),
            _ => drop(c.read_to(&mut Skims)?),
        }
        Ok(None)
    }
}

/// However little of the root is read, the document is complete and well-formed, or it's an error.
fn unread(ctx: &mut Ctx, way: usize, doc: &[u8], well_formed: bool) {
    WAY.with(|w| w.set(way));
    let r = guard(|| static_xml::de::read::<_, Unread>(doc).map(|_| ()));
    ctx.eval(hash(doc) ^ mix(way as u64 | 1 << 50));
    ctx.hit(if well_formed { "partly read, complete" } else { "partly read, malformed" });
    let ok = match &r {
        Ok(Ok(())) => well_formed,
        Ok(Err(_)) => !well_formed,
        Err(_) => false,
    };
    if !ok {
        let r = match r {
            Ok(Ok(())) => "no error".to_owned(),
            Ok(Err(e)) => format!("error {}", e),
            Err(p) => p,
        };
        let doc = clip(&String::from_utf8_lossy(doc), 3000);
        ctx.violation(format!("a root type that leaves elements unread (way {}): {}; document {:?}", way, r, doc));
    }
}

pub fn c15(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(4_000, 600_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some((mut doc, v)) = valid_doc(d, &mut rng) else { continue };
        // Things to be skipped, before and after what's needed.
        for _ in 0..rng.below(4) {
            let mut next = doc.clone();
            let p = rng.pick(&next.paths()).clone();
            let x = next.at_mut(&p);
            let mut j = Elem::new(*rng.pick(&["", "urn:skipped"]), "skipped");
            j.attr("", "k", "v");
            for _ in 0..rng.below(3) {
                let mut c = Elem::new(*rng.pick(&["", "urn:skipped"]), *rng.pick(&["s", "t"]));
                c.children.push(Node::T("text".to_owned()));
                j.children.push(Node::E(c));
            }
            let at = if rng.chance(50) { x.children.len() } else { rng.below(x.children.len() + 1) };
            x.children.insert(at, Node::E(j));
            if interp(d, &next).as_ref() == Ok(&v) {
                doc = next;
            }
        }
        let style = Style::random(&mut rng);
        let mut text = xml::render(&doc, &style, &mut rng);
        if rng.chance(30) {
            let n = if rng.chance(20) { rng.size(1100).unwrap_or(20) } else { 1 };
            for _ in 0..n {
                text.push_str(*rng.pick(&["<!-- c -->", "\n<?pi x?>\n", " \t\r\n", "<!---->\n<!-- x --><?p?>"]));
            }
            if n > 10 {
                ctx.hit("many comments and instructions after the root");
            }
        }
        let toks = tokens(&text);
        let end = root_end(&toks);
        let who = || show_case(e, &text);
        // Complete.
        let r = read(e, &text);
        ctx.eval(key(e, &text));
        ctx.hit("complete");
        if let Some(m) = mismatch(&Ok(v.clone()), &r) {
            ctx.violation(format!("{}; {}", m, who()));
            continue;
        }
        // Cut off at each byte.
        let bytes = text.as_bytes();
        for k in positions(bytes.len(), 4000, &mut rng) {
            let o = outcome(|| (e.read)(&mut &bytes[..k]));
            ctx.eval(key(e, &text) ^ mix(1 << 40 | k as u64));
            // After the root, only a piece of a comment or an instruction is an error.
            let complete = k >= end
                && toks.iter().all(|t| !(t.from < k && k < t.to) || (t.kind == TokKind::Text && t.from >= end));
            ctx.hit(if complete { "cut off after the root" } else { "cut off" });
            let ok = match (&o, complete) {
                (Outcome::Err(_), false) => true,
                (Outcome::Val(w), true) => *w == v,
                _ => false,
            };
            if !ok {
                ctx.violation(format!("cut off at {} of {} (root ends at {}): {}; {}", k, bytes.len(), end, o.show(), who()));
                break;
            }
        }
        // For types which leave some of it unread.
        for _ in 0..4 {
            let n = rng.below(Unread::WAYS);
            let k = rng.below(bytes.len() + 1);
            let complete = k >= end
                && toks.iter().all(|t| !(t.from < k && k < t.to) || (t.kind == TokKind::Text && t.from >= end));
            unread(ctx, n, &bytes[..k], complete);
            unread(ctx, n, bytes, true);
            if let Some((_, broken)) = break_structure(&text, &toks, &mut rng) {
                unread(ctx, n, broken.as_bytes(), false);
            }
        }
        // Broken otherwise.
        for _ in 0..30 {
            let Some((what, broken)) = break_structure(&text, &toks, &mut rng) else { continue };
            let o = read(e, &broken);
            ctx.eval(key(e, &broken));
            ctx.hit(what);
            if !o.is_err() {
                ctx.violation(format!("{}: {}; {}", what, o.show(), show_case(e, &broken)));
            }
        }
        ctx.sample(who);
    }
}

// ---------------------------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------------------------

pub struct RawElem {
    pub name: xml_rs::name::OwnedName,
    pub start: xml_rs::common::TextPosition,
    pub end: Option<xml_rs::common::TextPosition>,
    pub depth: usize,
    pub namespace: xml_rs::namespace::Namespace,
    /// Where pieces of its text are.
    pub texts: Vec<xml_rs::common::TextPosition>,
}

/// What xml-rs by itself makes of a document.
pub struct Raw {
    /// In document order.
    pub elems: Vec<RawElem>,
    /// The error, and the elements then open (indexes).
    pub error: Option<(xml_rs::reader::Error, Vec<usize>)>,
}

pub fn raw(b: &[u8]) -> Raw {
    use xml_rs::common::Position;
    use xml_rs::reader::XmlEvent as X;
    let mut r = xml_rs::reader::EventReader::new(b);
    let mut out = Raw { elems: Vec::new(), error: None };
    let mut open: Vec<usize> = Vec::new();
    loop {
        match r.next() {
            Ok(X::StartElement { name, namespace, .. }) => {
                open.push(out.elems.len());
                out.elems.push(RawElem { name, start: r.position(), end: None, depth: open.len(), namespace, texts: Vec::new() });
            }
            Ok(X::EndElement { .. }) => {
                let i = open.pop().unwrap();
                out.elems[i].end = Some(r.position());
            }
            Ok(X::EndDocument) => break,
            Ok(X::Characters(_) | X::CData(_) | X::Whitespace(_)) => {
                if let Some(i) = open.last() {
                    out.elems[*i].texts.push(r.position());
                }
            }
            Ok(_) => {}
            Err(e) => {
                out.error = Some((e, open));
                break;
            }
        }
    }
    out
}

fn pos(p: &xml_rs::common::TextPosition) -> (u64, u64) {
    (p.row, p.column)
}

/// The printed form, taken apart: message, position, lines of the stack.
pub fn dissect(shown: &str) -> Option<(String, (u64, u64), Vec<String>)> {
    let (head, stack) = match shown.split_once("\n\nXML element stack:\n") {
        Some((h, s)) => (h, s.lines().map(|l| l.to_owned()).collect()),
        None => (shown, Vec::new()),
    };
    let (msg, p) = head.rsplit_once(" @ ")?;
    let (r, c) = p.trim().split_once(':')?;
    let (r, c): (u64, u64) = (r.parse().ok()?, c.parse().ok()?);
    Some((msg.to_owned(), (r.checked_sub(1)?, c.checked_sub(1)?), stack))
}

/// Checks an error's stack (exactly the given elements) and its printed form. Returns message and position.
pub fn check_error(x: &static_xml::de::Error, want: &[&RawElem]) -> Result<(String, (u64, u64)), String> {
    let stack = x.stack();
    if stack.len() != want.len() {
        return Err(format!(
            "stack is {:?}, should be {:?}",
            stack.iter().map(|s| format!("{} @ {}", s.name, s.pos)).collect::<Vec<_>>(),
            want.iter().map(|s| format!("{} @ {}", s.name, s.start)).collect::<Vec<_>>()
        ));
    }
    for (i, (s, w)) in stack.iter().zip(want).enumerate() {
        if s.name != w.name || s.pos != w.start {
            return Err(format!("stack[{}] is {} @ {}, should be {} @ {}", i, s.name, s.pos, w.name, w.start));
        }
    }
    let shown = x.to_string();
    let Some((msg, p, lines)) = dissect(&shown) else {
        return Err(format!("unexpected printed form {:?}", shown));
    };
    if lines.len() != want.len() {
        return Err(format!("printed form has {} elements instead of {}: {:?}", lines.len(), want.len(), shown));
    }
    for (l, w) in lines.iter().zip(want.iter().rev()) {
        let q = match &w.name.prefix {
            Some(p) => format!("<{}:{}>", p, w.name.local_name),
            None => format!("<{}>", w.name.local_name),
        };
        if !l.contains(&q) || !l.trim_end().ends_with(&format!("@ {}", w.start)) {
            return Err(format!("line {:?} instead of {} @ {}", l, q, w.start));
        }
    }
    Ok((msg, p))
}

fn chain_has(x: &static_xml::de::Error, f: &dyn Fn(&(dyn std::error::Error + 'static)) -> bool) -> bool {
    use std::error::Error;
    let mut cur = x.source();
    while let Some(c) = cur {
        if f(c) {
            return true;
        }
        cur = c.source();
    }
    false
}

pub fn c16(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(40_000, 1_500_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some((mut doc, _)) = valid_doc(d, &mut rng) else { continue };
        if rng.below(50) == 0 {
            if let Some(deep) = deepen(d, &mut rng).filter(|x| interp(d, x).is_ok()) {
                ctx.hit("deep");
                doc = deep;
            }
        }
        for _ in 0..rng.below(3) {
            let p = rng.pick(&doc.paths()).clone();
            let mut next = doc.clone();
            let x = next.at_mut(&p);
            let at = rng.below(x.children.len() + 1);
            let mut j = Elem::new("urn:skipped", "skipped");
            j.children.push(Node::E(Elem::new("", "s")));
            x.children.insert(at, Node::E(j));
            if interp(d, &next).is_ok() {
                doc = next;
            }
        }
        let style = Style::random(&mut rng);
        for _ in 0..6 {
            let Some((mut bad, mut f)) = one_defect(d, &doc, &mut rng) else { continue };
            if rng.chance(50) {
                // Attributes and elements nothing claims, which change nothing.
                let (kind, path) = (f.kind, f.path.clone());
                super::reading::sprinkle(d, &mut bad, &mut rng);
                match interp(d, &bad) {
                    Err(g) if g.kind == kind && g.path == path => f = g,
                    _ => continue,
                }
                ctx.hit("with unclaimed attributes");
            }
            let text = xml::render(&bad, &style, &mut rng);
            let r = raw(text.as_bytes());
            if r.error.is_some() || r.elems.len() != bad.count() {
                ctx.hit("not tokenized as expected");
                continue;
            }
            ctx.eval(key(e, &text));
            ctx.hit(&format!("{:?}", f.kind));
            let who = || format!("{:?} {}; {}", f.kind, f.subject, show_case(e, &text));
            let x = match read(e, &text) {
                Outcome::Err(x) => x,
                o => {
                    ctx.violation(format!("{} instead of an error; {}", o.show(), who()));
                    continue;
                }
            };
            // From the path to the elements.
            let order = bad.paths();
            let index = |p: &[usize]| order.iter().position(|o| o == p).unwrap();
            let want: Vec<&RawElem> = (0..=f.path.len()).map(|n| &r.elems[index(&f.path[..n])]).collect();
            let last = want[want.len() - 1];
            let (msg, at) = match check_error(&x, &want) {
                Ok(x) => x,
                Err(m) => {
                    ctx.violation(format!("{}; error {}; {}", m, x, who()));
                    continue;
                }
            };
            let inside = (pos(&last.start), last.end.as_ref().map(pos).unwrap());
            use FaultKind::*;
            let (ok, named) = match f.kind {
                MissingElem | MissingAttr => (at >= inside.0 && at <= inside.1, true),
                NoChoice => (at >= inside.0 && at <= inside.1, false),
                UnparsableText => (at >= inside.0 && at <= inside.1, false),
                DuplicateElem | OtherChoice | ChildInText => (at == inside.0, true),
                DuplicateAttr => (at == inside.0, true),
                UnparsableAttr => (at == inside.0, false),
            };
            if !ok {
                ctx.violation(format!("position {:?}, the element has {:?}; error {}; {}", at, inside, x, who()));
            }
            if named {
                let (ns, local) = match f.subject.strip_prefix('{').and_then(|s| s.split_once('}')) {
                    Some((n, l)) => (n, l),
                    None => ("", f.subject.as_str()),
                };
                if !msg.contains(local) || !msg.contains(ns) {
                    ctx.violation(format!("the message {:?} doesn't name {:?}; {}", msg, f.subject, who()));
                }
            }
            // A tracked value's own error stays reachable.
            if matches!(f.kind, UnparsableText | UnparsableAttr) {
                use std::error::Error;
                if x.source().is_none() {
                    ctx.violation(format!("no source; error {}; {}", x, who()));
                }
                // A union makes a text of its alternatives' errors.
                if msg.starts_with("ProbeError(") {
                    if !chain_has(&x, &|c| c.downcast_ref::<ProbeError>().is_some()) {
                        ctx.violation(format!("the parser's error isn't among the sources; error {}; {}", x, who()));
                    }
                    if !chain_has(&x, &|c| c.downcast_ref::<crate::model::ProbeCause>().is_some()) {
                        ctx.violation(format!("the cause of the parser's error isn't among the sources; error {}; {}", x, who()));
                    }
                    ctx.hit("parser's own error");
                }
            }
            ctx.sample(|| format!("{} => {}", who(), x));
        }
        // Those made by visitors.
        if rng.chance(40) {
            super::visitors::placed_errors(ctx, &reg, e, &mut rng);
        }
        // Syntax errors.
        let text = xml::render(&doc, &style, &mut rng);
        let toks = tokens(&text);
        for _ in 0..8 {
            let broken: Vec<u8> = if rng.chance(40) {
                text.as_bytes()[..rng.below(text.len())].to_vec()
            } else if rng.chance(30) {
                // Not UTF-8.
                const NOT: &[&[u8]] = &[b"\xff", b"\x80", b"\xc3", b"\xc3(", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf"];
                let mut b = text.as_bytes().to_vec();
                let at = rng.below(b.len());
                b.splice(at..at, rng.pick(NOT).iter().copied());
                b
            } else {
                match break_structure(&text, &toks, &mut rng) {
                    // Only what leaves everything before it as it was.
                    Some((w, b)) if !w.contains("start tag") && !w.contains("root") && !w.contains("unbalanced") && !w.contains("element") && !w.contains("end tag") => {
                        b.into_bytes()
                    }
                    _ => continue,
                }
            };
            let r = raw(&broken);
            // The change may have made other elements before the error.
            let unchanged = {
                let v = raw(text.as_bytes());
                r.elems.len() <= v.elems.len() && r.elems.iter().zip(&v.elems).all(|(a, b)| a.name == b.name && a.depth == b.depth)
            };
            if !unchanged || broken.windows(8).any(|w| w == b" a=\"open") {
                continue;
            }
            let Some((err, open)) = r.error else { continue };
            ctx.eval(hash(&broken) ^ hash(e.name.as_bytes()));
            let who = || format!("type {} document {:?}", e.name, clip(&String::from_utf8_lossy(&broken), 3000));
            let x = match outcome(|| (e.read)(&mut &broken[..])) {
                Outcome::Err(x) => x,
                o => {
                    ctx.violation(format!("{} instead of a syntax error; {}", o.show(), who()));
                    continue;
                }
            };
            let want: Vec<&RawElem> = open.iter().map(|i| &r.elems[*i]).collect();
            match check_error(&x, &want) {
                Ok((msg, at)) => {
                    use xml_rs::common::Position;
                    if msg != err.msg() || at != pos(&err.position()) {
                        ctx.violation(format!("error {} instead of {}; {}", x, err, who()));
                    }
                    use std::error::Error;
                    if x.source().is_none() {
                        ctx.violation(format!("no source; error {}; {}", x, who()));
                    }
                    if let xml_rs::reader::ErrorKind::Utf8(u) = err.kind() {
                        ctx.hit("not UTF-8");
                        if !chain_has(&x, &|c| c.downcast_ref::<std::str::Utf8Error>() == Some(u)) {
                            ctx.violation(format!("{:?} isn't among the sources; error {}; {}", u, x, who()));
                        }
                    }
                    ctx.hit("syntax errors");
                }
                Err(m) => ctx.violation(format!("{}; error {}; {}", m, x, who())),
            }
        }
    }
}
