//! C01: executions to be observed natively, under AddressSanitizer and under Miri.
//!
//! The same cases run in each; `--write-corpus` and `--replay` carry them over, as generating them under Miri
//! would take longer than running them.

use super::faults::*;
use super::*;
use crate::tracked::{self, Tracked};
use static_xml::de::{normalize, Deserialize, ElementReader, ElementVisitor, VisitorError, WhiteSpace};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;

/// Pseudo types of cases.
const NORMALIZE: u32 = u32::MAX;
const HOST: u32 = u32::MAX - 1;

/// What goes wrong on purpose.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inject {
    Nothing,
    Fail(u32),
    Panic(u32),
    DefaultPanic(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    /// Index of the type; or one of the pseudo types above.
    pub ty: u32,
    pub inject: Inject,
    /// Bytes per read of the source; 0: all.
    pub split: u8,
    /// The source fails after the last byte rather than ending.
    pub source_fails: bool,
    pub bytes: Vec<u8>,
}

impl Case {
    fn encode(&self, out: &mut Vec<u8>) {
        let (m, k) = match self.inject {
            Inject::Nothing => (0, 0),
            Inject::Fail(k) => (1, k),
            Inject::Panic(k) => (2, k),
            Inject::DefaultPanic(k) => (3, k),
        };
        out.extend(self.ty.to_le_bytes());
        out.extend([m, self.split, self.source_fails as u8]);
        out.extend((k as u32).to_le_bytes());
        out.extend((self.bytes.len() as u32).to_le_bytes());
        out.extend(&self.bytes);
    }

    fn decode(b: &mut &[u8]) -> Option<Case> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if b.len() < n {
                return None;
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Some(x)
        }
        fn num(b: &mut &[u8]) -> Option<u32> {
            Some(u32::from_le_bytes(take(b, 4)?.try_into().unwrap()))
        }
        let ty = num(b)?;
        let h = take(b, 3)?;
        let k = num(b)?;
        let n = num(b)? as usize;
        Some(Case {
            ty,
            inject: match h[0] {
                0 => Inject::Nothing,
                1 => Inject::Fail(k),
                2 => Inject::Panic(k),
                _ => Inject::DefaultPanic(k),
            },
            split: h[1],
            source_fails: h[2] != 0,
            bytes: take(b, n)?.to_vec(),
        })
    }

    fn show(&self, reg: &[Entry]) -> String {
        let name = match self.ty {
            NORMALIZE => "(normalize)",
            HOST => "memory::Host",
            t => reg[t as usize].name,
        };
        format!(
            "type {} {:?} split {} source fails {} document {:?}",
            name,
            self.inject,
            self.split,
            self.source_fails,
            clip(&String::from_utf8_lossy(&self.bytes), 2000)
        )
    }
}

/// Is this string one? Looks at every byte.
fn utf8(s: &str, bad: &mut Vec<String>) {
    if let Err(e) = std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        bad.push(format!("a string which isn't UTF-8: {:?} ({})", s.as_bytes(), e));
    }
}

fn leaf_strings(l: &LeafVal, bad: &mut Vec<String>) {
    match l {
        LeafVal::Str(s) => utf8(s, bad),
        LeafVal::Union(_, l) => leaf_strings(l, bad),
        _ => {}
    }
}

fn val_strings(v: &Val, bad: &mut Vec<String>) {
    match v {
        Val::Struct(vs) | Val::Many(vs) => vs.iter().for_each(|v| val_strings(v, bad)),
        Val::Choice(_, Some(v)) | Val::Opt(Some(v)) => val_strings(v, bad),
        Val::Leaf(l) => leaf_strings(l, bad),
        _ => {}
    }
}

struct Drip<'a> {
    data: &'a [u8],
    split: usize,
    fails: bool,
}

impl std::io::Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() && self.fails {
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        let n = buf.len().min(self.data.len()).min(if self.split == 0 { usize::MAX } else { self.split });
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

#[derive(PartialEq)]
pub enum Ended {
    Value,
    Error,
    Panic,
}

/// Runs a case, looking at everything it produces. Returns how it ended and what's wrong.
pub fn exec(reg: &[Entry], c: &Case) -> (Ended, Vec<String>) {
    let mut bad = Vec::new();
    if c.ty == HOST {
        return exec_host(c);
    }
    let Some(e) = reg.get(c.ty as usize) else {
        let s = String::from_utf8_lossy(&c.bytes).into_owned();
        for ws in [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse] {
            match guard(|| normalize(s.clone(), ws)) {
                Ok(r) => utf8(&r, &mut bad),
                Err(p) => bad.push(p),
            }
        }
        return (Ended::Value, bad);
    };
    tracked::reset();
    tracked::with(|r| match c.inject {
        Inject::Nothing => {}
        Inject::Fail(k) => r.fail_at = Some(k as u64),
        Inject::Panic(k) => r.panic_at = Some(k as u64),
        Inject::DefaultPanic(k) => r.default_panic_at = Some(k as u64),
    });
    let mut src = Drip { data: &c.bytes, split: c.split as usize, fails: c.source_fails };
    let r = guard(|| (e.read_keep)(&mut src));
    // Only values of the result are left; using them is to be observed too.
    tracked::with(|r| {
        r.default_panic_at = None;
    });
    let ended = match r {
        Ok(Ok(v)) => {
            match guard(|| (e.keep_val)(&*v)) {
                Ok(x) => val_strings(&x, &mut bad),
                Err(p) => bad.push(p),
            }
            if let Err(p) = guard(|| drop(v)) {
                bad.push(p);
            }
            Ended::Value
        }
        Ok(Err(x)) => {
            utf8(&x.to_string(), &mut bad);
            for s in x.stack() {
                utf8(&format!("{} {} {:?}", s.name, s.pos, s), &mut bad);
            }
            Ended::Error
        }
        // Other panics are C13's.
        Err(_) => Ended::Panic,
    };
    tracked::with(|r| bad.append(&mut r.errors));
    (ended, bad)
}

// ---------------------------------------------------------------------------------------------
// Derived types with user-written deserialization in their fields, which does anything a safe function can.
// ---------------------------------------------------------------------------------------------

#[derive(static_xml_derive::Deserialize, Debug)]
struct Host {
    first: Tracked,
    wild: Vec<Wild>,
    opt: Option<Wild>,
    #[static_xml(flatten)]
    part: Part,
    #[static_xml(default)]
    dflt: Tracked,
    #[static_xml(flatten)]
    choice: Choice,
    one: Wild,
    nested: Vec<Nested>,
}

#[derive(static_xml_derive::Deserialize, Debug)]
struct Part {
    p: Tracked,
    pwild: Vec<Wild>,
    #[static_xml(attribute)]
    a: Option<Tracked>,
}

#[derive(static_xml_derive::Deserialize, Debug)]
struct Nested {
    #[static_xml(attribute)]
    a: Tracked,
    #[static_xml(flatten)]
    choice: Choice,
    wild: Option<Wild>,
}

#[derive(static_xml_derive::Deserialize, Debug)]
enum Choice {
    Cwild(Vec<Wild>),
    Ctext(Tracked),
    Cone(Wild),
    Cunit,
}

#[derive(Debug)]
struct Wild(Tracked, Box<u64>);

thread_local! {
    static ACTIONS: RefCell<(bool, Rng)> = RefCell::new((true, Rng::new(0)));
}

/// What to do next, of n things. In calm cases, only the `calm` ones (and the last).
fn roll(n: usize, calm: &[usize]) -> usize {
    let (calmly, x) = ACTIONS.with(|r| {
        let mut r = r.borrow_mut();
        (r.0, r.1.below(n))
    });
    if calmly && !calm.contains(&x) {
        return n;
    }
    x
}

fn raise<T>() -> Result<T, VisitorError> {
    if roll(2, &[0]) == 0 {
        std::panic::panic_any(tracked::InjectedPanic);
    }
    Err(VisitorError::Wrap("raised".into()))
}

impl Deserialize for Wild {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let v = Wild(Tracked::default(), Box::new(e.name().local_name.len() as u64));
        match roll(24, &[0, 2, 3, 4]) {
            0 => {}
            1 => return raise(),
            2 => drop(e.read_string()),
            3 => drop(Nested::deserialize(e)),
            4 => drop(Host::deserialize(e)),
            5 => drop(Part::deserialize(e)?),
            6 => {
                e.read_string()?;
                return raise();
            }
            _ => drop(e.read_to(&mut Visitor)?),
        }
        Ok(v)
    }
}

struct Visitor;

impl ElementVisitor for Visitor {
    fn attribute(&mut self, _: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        match roll(40, &[1]) {
            0 => raise(),
            1 => Ok(None),
            _ => Ok(Some(v)),
        }
    }
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        match roll(16, &[0, 2, 3, 4]) {
            0 => return Ok(Some(c)),
            1 => return raise(),
            2 => drop(c),
            3 => drop(c.read_string()),
            4 => drop(Host::deserialize(c)),
            5 => drop(Wild::deserialize(c)?),
            6 => {
                Nested::deserialize(c)?;
            }
            _ => drop(c.read_to(&mut Visitor)?),
        }
        Ok(None)
    }
    fn characters(&mut self, s: String, _: static_xml::TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if roll(40, &[]) == 0 {
            std::panic::panic_any(tracked::InjectedPanic);
        }
        Ok(Some(s))
    }
}

fn exec_host(c: &Case) -> (Ended, Vec<String>) {
    let mut bad = Vec::new();
    tracked::reset();
    let mut seed = c.bytes.len() as u64;
    match c.inject {
        Inject::Nothing => {}
        Inject::Fail(k) => tracked::with(|r| r.fail_at = Some(k as u64)),
        Inject::Panic(k) => tracked::with(|r| r.panic_at = Some(k as u64)),
        Inject::DefaultPanic(k) => seed = k as u64,
    }
    ACTIONS.with(|r| *r.borrow_mut() = (seed % 4 != 0, Rng::new(seed)));
    let mut src = Drip { data: &c.bytes, split: c.split as usize, fails: c.source_fails };
    let r = guard(|| static_xml::read::<_, Host>(&mut src));
    let ended = match r {
        Ok(Ok(h)) => {
            utf8(&format!("{:?}", h), &mut bad);
            if let Err(p) = guard(|| drop(h)) {
                bad.push(p);
            }
            Ended::Value
        }
        Ok(Err(x)) => {

            utf8(&x.to_string(), &mut bad);
            Ended::Error
        }
        Err(_) => Ended::Panic,
    };
    tracked::with(|r| bad.append(&mut r.errors));
    (ended, bad)
}

/// A document which mostly fits `Host`.
fn host(rng: &mut Rng, size: usize) -> Vec<u8> {
    fn leaf(n: &str, rng: &mut Rng) -> Elem {
        let mut e = Elem::new("", n);
        if rng.chance(70) {
            e.children.push(Node::T("t".to_owned()));
        }
        e
    }
    fn nested(rng: &mut Rng, depth: usize) -> Elem {
        let mut e = Elem::new("", "nested");
        if rng.chance(98) {
            e.attrs.push(xml::Attr { ns: String::new(), local: "a".to_owned(), value: "v".to_owned() });
        }
        let mut names = vec![*rng.pick(&["Cwild", "Cwild", "Ctext", "Cone", "Cunit"])];
        for _ in 0..rng.below(3) {
            names.push(*rng.pick(&["other", "other", if names[0] == "Cwild" { "Cwild" } else { "other" }]));
        }
        for n in names {
            let c = any(n, rng, depth);
            e.children.push(Node::E(c));
        }
        e
    }
    fn any(n: &str, rng: &mut Rng, depth: usize) -> Elem {
        match n {
            "nested" => nested(rng, depth),
            "wild" | "pwild" | "Cwild" | "opt" | "one" | "other" | "Cone" if depth > 0 => {
                let mut e = match rng.below(4) {
                    0 => nested(rng, depth - 1),
                    1 => whole("x", rng, depth - 1, 1),
                    _ => leaf("x", rng),
                };
                e.local = n.to_owned();
                e
            }
            n => leaf(n, rng),
        }
    }
    fn whole(name: &str, rng: &mut Rng, depth: usize, size: usize) -> Elem {
        let mut e = Elem::new("", name);
        let c = *rng.pick(&["Cwild", "Cwild", "Ctext", "Cone", "Cunit"]);
        let mut names = vec!["first", "one", "p", c];
        for _ in 0..rng.below(size * 2 + 1) {
            let rng_c = c == "Cwild" || rng.chance(2);
            names.push(*rng.pick(&["wild", "wild", "pwild", "nested", if rng_c { c } else { "other" }, "other"]));
        }
        for n in ["opt", "dflt"] {
            if rng.chance(40) {
                names.push(n);
            }
        }
        for n in names {
            if rng.chance(2) {
                continue;
            }
            let at = rng.below(e.children.len() + 1);
            let c = any(n, rng, depth);
            e.children.insert(at, Node::E(c));
        }
        e
    }
    let doc = whole("host", rng, size.min(2), size);
    xml::render(&doc, &Style::plain(), rng).into_bytes()
}

/// Some cases about one document; `small`: few and small ones, for interpreters.
fn generate(reg: &[Entry], case: u64, rng: &mut Rng, small: bool) -> Vec<Case> {
    let mut out = Vec::new();
    // Every type in turn.
    let ty = if small || rng.chance(70) { (case % reg.len() as u64) as usize } else { rng.below(reg.len()) };
    let e = &reg[ty];
    let d = (e.desc)();
    if rng.chance(8) {
        out.push(Case { ty: NORMALIZE, inject: Inject::Nothing, split: 0, source_fails: false, bytes: white(rng).into_bytes() });
    }
    for _ in 0..if small { 2 } else { 4 } {
        let inject = match rng.below(6) {
            0 => Inject::Fail(rng.below(6) as u32),
            1 => Inject::Panic(rng.below(6) as u32),
            _ => Inject::DefaultPanic(rng.u64() as u32),
        };
        let mut bytes = host(rng, if small { 2 } else { 6 });
        if rng.chance(10) {
            bytes.truncate(rng.below(bytes.len()));
        }
        out.push(Case { ty: HOST, inject, split: *rng.pick(&[0, 1, 5]), source_fails: rng.chance(5), bytes });
    }
    let mut best: Option<(Elem, Style, String)> = None;
    for _ in 0..if small { 8 } else { 1 } {
        let Some((doc, _)) = valid_doc(d, rng) else { continue };
        let style = if small || rng.chance(60) { Style::plain() } else { Style::random(rng) };
        let text = xml::render(&doc, &style, rng);
        // The shortest that isn't trivial.
        let cost = |t: &str| if t.len() < 60 { 300 } else { t.len() };
        if best.as_ref().map_or(true, |b| cost(&b.2) > cost(&text)) {
            best = Some((doc, style, text));
        }
    }
    let Some((doc, style, text)) = best else { return out };
    let ok = Case {
        ty: ty as u32,
        inject: Inject::Nothing,
        split: *rng.pick(&[0, 0, 1, 7]),
        source_fails: false,
        bytes: text.clone().into_bytes(),
    };
    // How often are user functions called?
    let (_, _) = exec(reg, &ok);
    let (parses, defaults) = tracked::with(|r| (r.parses as u32, r.defaults as u32));
    out.push(ok.clone());
    let some = |rng: &mut Rng, n: u32| -> Vec<u32> {
        match n {
            n if !small || n == 0 => (0..n.min(30)).collect(),
            n => vec![if rng.chance(50) { n - 1 } else { rng.below(n as usize) as u32 }],
        }
    };
    for k in some(rng, parses) {
        if !small || rng.chance(50) {
            out.push(Case { inject: Inject::Fail(k), ..ok.clone() });
        }
        if !small || out.last() == Some(&ok) {
            out.push(Case { inject: Inject::Panic(k), ..ok.clone() });
        }
    }
    for k in some(rng, defaults) {
        out.push(Case { inject: Inject::DefaultPanic(k), ..ok.clone() });
    }
    for _ in 0..if small { 2 } else { 6 } {
        if let Some((b, _)) = one_defect(d, &doc, rng) {
            out.push(Case { bytes: xml::render(&b, &style, rng).into_bytes(), ..ok.clone() });
        }
    }
    for _ in 0..if small { 1 } else { 12 } {
        let mut b = ok.bytes.clone();
        b.truncate(rng.below(b.len() + 1));
        out.push(Case { bytes: b, source_fails: rng.chance(50), ..ok.clone() });
    }
    for _ in 0..if small { (case % 3 == 0) as usize } else { 6 } {
        let mut b = ok.bytes.clone();
        mutate_bytes(&mut b, &[], rng);
        out.push(Case { bytes: b, ..ok.clone() });
    }
    out
}

/// Text with all kinds of white space and multi-byte characters.
fn white(rng: &mut Rng) -> String {
    const C: &[&str] = &[
        " ", " ", "\t", "\n", "\r", "  ", "a", "é", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "😀", "\u{20}\u{300}", "ह", "\u{909}", "\u{920}",
        "\u{10909}", "\u{d}\u{a}", "x y",
    ];
    (0..rng.below(12)).map(|_| *rng.pick(C)).collect()
}

fn label(c: &Case, e: &Ended) -> String {
    let i = match c.inject {
        _ if c.ty == NORMALIZE => return "white space normalized".to_owned(),
        _ if c.ty == HOST => "read with user-written deserialization",
        Inject::Nothing => "read",
        Inject::Fail(_) => "read, a parser failing",
        Inject::Panic(_) => "read, a parser panicking",
        Inject::DefaultPanic(_) => "read, a default panicking",
    };
    format!(
        "{}: {}",
        i,
        match e {
            Ended::Value => "value",
            Ended::Error => "error",
            Ended::Panic => "panic",
        }
    )
}

pub fn c01(ctx: &mut Ctx, corpus: Option<&str>) {
    let reg = registry();
    ctx.add("types", reg.len() as u64);
    ctx.cases(12_000, 200_000);
    let mut out = Vec::new();
    while let Some((case, mut rng)) = ctx.next_case() {
        for c in generate(&reg, case, &mut rng, corpus.is_some()) {
            let (ended, bad) = exec(&reg, &c);
            ctx.eval(hash(&c.bytes) ^ mix(c.ty as u64) ^ hash(format!("{:?}", c.inject).as_bytes()));
            ctx.hit(&label(&c, &ended));
            for b in bad {
                ctx.violation(format!("{}; {}", b, c.show(&reg)));
            }
            if corpus.is_some() && c.bytes.len() <= 300 {
                c.encode(&mut out);
            }
            ctx.sample(|| c.show(&reg));
        }
    }
    if let Some(p) = corpus {
        std::fs::write(p, out).unwrap();
    }
}

/// Runs a corpus, each case announced on standard output; for interpreters and sanitizers.
pub fn replay(path: &str, from: usize, step: usize, seconds: u64) {
    use std::io::Write;
    let data = std::fs::read(path).unwrap();
    let mut b = &data[..];
    let mut cases = Vec::new();
    while let Some(c) = Case::decode(&mut b) {
        cases.push(c);
    }
    let reg = registry();
    let start = std::time::Instant::now();
    let mut at = from;
    let out = std::io::stdout();
    while at < cases.len() && start.elapsed().as_secs() < seconds {
        let c = &cases[at];
        let _ = writeln!(out.lock(), "case {}", at);
        let (ended, bad) = exec(&reg, c);
        let _ = writeln!(out.lock(), "ended {}", label(c, &ended));
        for m in bad {
            let _ = writeln!(out.lock(), "bad {}", m.replace('\n', " "));
        }
        at += step;
    }
    let _ = writeln!(out.lock(), "done {} of {}", at, cases.len());
}

/// Describes one case of a corpus.
pub fn describe(path: &str, n: usize) -> String {
    let data = std::fs::read(path).unwrap();
    let mut b = &data[..];
    let mut i = 0;
    while let Some(c) = Case::decode(&mut b) {
        if i == n {
            return c.show(&registry());
        }
        i += 1;
    }
    "no such case".to_owned()
}
