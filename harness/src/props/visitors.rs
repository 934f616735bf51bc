//! C17: hand-written visitors keep in step with the document, whatever they do with its elements.

use super::faults::{raw, root_end, tokens, Raw};
use super::reading::gen_doc;
use super::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use std::rc::Rc;
use xml_rs::common::TextPosition;

/// One element as a visitor should see it.
struct Flat {
    ns: String,
    local: String,
    attrs: Vec<(String, String, String)>,
    nodes: Vec<FlatNode>,
    /// Elements from the root to this one.
    chain: Vec<usize>,
}

enum FlatNode {
    Text(String),
    Elem(usize),
}

fn flatten(e: &Elem, chain: &[usize], slots: &mut Vec<Option<Flat>>) -> usize {
    let i = slots.len();
    slots.push(None);
    let mut c = chain.to_vec();
    c.push(i);
    let nodes = e
        .children
        .iter()
        .filter_map(|n| match n {
            Node::T(t) => Some(FlatNode::Text(t.clone())),
            Node::E(x) => Some(FlatNode::Elem(flatten(x, &c, slots))),
            _ => None,
        })
        .collect();
    slots[i] = Some(Flat {
        ns: e.ns.clone(),
        local: e.local.clone(),
        attrs: e.attrs.iter().map(|a| (a.ns.clone(), a.local.clone(), a.value.clone())).collect(),
        nodes,
        chain: c,
    });
    i
}

/// An error raised by a visitor.
#[derive(Debug)]
struct Abandon(u32);
impl std::fmt::Display for Abandon {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Abandon({})", self.0)
    }
}
impl std::error::Error for Abandon {}

fn abandoned(e: &static_xml::de::Error) -> Option<u32> {
    use std::error::Error;
    let mut cur = e.source();
    while let Some(c) = cur {
        if let Some(a) = c.downcast_ref::<Abandon>() {
            return Some(a.0);
        }
        cur = c.source();
    }
    None
}

struct Raised {
    id: u32,
    /// The handler at this depth ignores it; 0: the root's.
    target: usize,
    /// Elements the error's stack should have.
    chain: Vec<usize>,
    /// There may be more of them, since another error was ignored before.
    loose: bool,
    /// Where the error should be said to be.
    at: TextPosition,
}

struct World {
    rng: Rng,
    flats: Vec<Rc<Flat>>,
    raw: Raw,
    nested: Vec<Entry>,
    raise_percent: usize,
    /// The document is complete and well-formed.
    whole: bool,
    /// Visitors ignore the reader's errors, too.
    swallow: bool,
    /// The reader has reported an error to a visitor.
    fatal: bool,
    raised: Option<Raised>,
    last_id: u32,
    errors: Vec<String>,
    /// About stacks and positions of errors.
    misplaced: Vec<String>,
    log: Vec<String>,
    counts: Vec<(&'static str, u64)>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(w.borrow_mut().as_mut().unwrap()))
}

impl World {
    fn count(&mut self, what: &'static str) {
        match self.counts.iter_mut().find(|c| c.0 == what) {
            Some(c) => c.1 += 1,
            None => self.counts.push((what, 1)),
        }
    }
    fn bad(&mut self, m: String) {
        if self.errors.len() < 3 {
            self.errors.push(m);
        }
    }
    /// Maybe makes up an error, raised below the given handler depth.
    fn raise(&mut self, percent: usize, chain: Vec<usize>, depth: usize, loose: bool) -> Option<Abandon> {
        if percent == 0 || !self.rng.chance(percent) {
            return None;
        }
        self.last_id += 1;
        let id = self.last_id;
        let target = self.rng.range(0, depth);
        self.log.push(format!("raise {} at {:?} for depth {}", id, chain, target));
        let at = self.raw.elems[*chain.last().unwrap()].start;
        self.raised = Some(Raised { id, target, chain, loose, at });
        Some(Abandon(id))
    }
    /// Called at each callback.
    fn callback(&mut self, what: &str) {
        self.count("callbacks");
        if let Some(r) = &self.raised {
            let m = format!("{} although error {} is on its way up", what, r.id);
            self.bad(m);
        }
        if self.fatal {
            self.bad(format!("{} after the reader's error", what));
        }
    }
}

struct V {
    idx: usize,
    flat: Rc<Flat>,
    attrs_seen: Vec<bool>,
    started: bool,
    text: String,
    next: usize,
    /// Pieces of text so far, at most as many as xml-rs has.
    pieces: usize,
}

fn same(n: &ExpandedNameRef, ns: &str, local: &str) -> bool {
    n.namespace == ns && n.local_name == local
}

impl V {
    fn new(idx: usize) -> V {
        let flat = w(|w| w.flats[idx].clone());
        V { idx, attrs_seen: vec![false; flat.attrs.len()], flat, started: false, text: String::new(), next: 0, pieces: 0 }
    }
    fn depth(&self) -> usize {
        self.flat.chain.len()
    }
    fn bad(&self, m: String) {
        w(|w| w.bad(format!("element #{} {{{}}}{}: {}", self.idx, self.flat.ns, self.flat.local, m)));
    }
    fn begin(&mut self) {
        if !self.started {
            self.started = true;
            if self.attrs_seen.iter().any(|s| !s) {
                self.bad(format!("content before all of the attributes: {:?} of {:?}", self.attrs_seen, self.flat.attrs));
            }
        }
    }
    /// The text so far must be what's before the next element or the end.
    fn flush(&mut self) {
        let want = match self.flat.nodes.get(self.next) {
            Some(FlatNode::Text(t)) => {
                self.next += 1;
                t.as_str()
            }
            _ => "",
        };
        if want != self.text {
            self.bad(format!("text {:?} instead of {:?} (before node {})", self.text, want, self.next));
        }
        self.text.clear();
    }
    /// After an `Ok` from `read_to`.
    fn complete(&mut self) {
        self.begin();
        self.flush();
        if self.next != self.flat.nodes.len() {
            self.bad(format!("ended after {} of {} nodes", self.next, self.flat.nodes.len()));
        }
        w(|w| w.count("elements read completely"));
    }
    /// After an error, the text so far must at least be a beginning.
    fn partial(&mut self) {
        let want = match self.flat.nodes.get(self.next) {
            Some(FlatNode::Text(t)) => t.as_str(),
            _ => "",
        };
        if !want.starts_with(&self.text) {
            self.bad(format!("text {:?} isn't a beginning of {:?}", self.text, want));
        }
        w(|w| w.count("elements read partially"));
    }
}

/// What a child's reader says about it.
fn check_child(c: &ElementReader<'_>, idx: usize) {
    w(|w| {
        let f = w.flats[idx].clone();
        let mut m = Vec::new();
        if c.depth() != f.chain.len() {
            m.push(format!("depth() is {}, should be {}", c.depth(), f.chain.len()));
        }
        if !same(&c.expanded_name(), &f.ns, &f.local) {
            m.push(format!("expanded_name() is {}", c.expanded_name()));
        }
        let r = &w.raw.elems[idx];
        if c.name() != r.name.borrow() {
            m.push(format!("name() is {:?}, should be {:?}", c.name(), r.name));
        }
        if *c.namespace() != r.namespace {
            m.push(format!("namespace() is {:?}, should be {:?}", c.namespace(), r.namespace));
        }
        let by_prefix = c.namespace().get(c.name().prefix.unwrap_or("")).unwrap_or("");
        if by_prefix != f.ns {
            m.push(format!("its prefix stands for {:?}, should be {:?}", by_prefix, f.ns));
        }
        for m in m {
            w.bad(format!("element #{} {{{}}}{}: {}", idx, f.ns, f.local, m));
        }
    });
}

/// Something done with a child element at the given depth's handler.
fn act<'a>(child: ElementReader<'a>, idx: usize, handler: usize) -> Result<Option<ElementReader<'a>>, VisitorError> {
    check_child(&child, idx);
    let (flat, roll) = w(|w| (w.flats[idx].clone(), {
        let n = if handler == 0 && w.rng.chance(80) { 60 } else { 100 };
        w.rng.below(n)
    }));
    let mut ignored = false;
    let result = match roll {
        0..=59 => {
            w(|w| w.log.push(format!("read #{}", idx)));
            let mut v = V::new(idx);
            match child.read_to(&mut v) {
                Ok((name, ns, pos)) => {
                    v.complete();
                    w(|w| {
                        let r = &w.raw.elems[idx];
                        if name != r.name || ns != r.namespace || Some(pos) != r.end {
                            let m = format!("read_to of #{} gave {:?} {:?} {}", idx, name, ns, pos);
                            w.bad(m);
                        }
                    });
                    None
                }
                Err(e) => {
                    v.partial();
                    Some(e)
                }
            }
        }
        60..=74 => {
            w(|w| w.log.push(format!("string #{}", idx)));
            let simple = !flat.nodes.iter().any(|n| matches!(n, FlatNode::Elem(_)));
            match child.read_string() {
                Ok(s) => {
                    let want = match flat.nodes.first() {
                        Some(FlatNode::Text(t)) => t.as_str(),
                        _ => "",
                    };
                    if !simple || s != want {
                        w(|w| w.bad(format!("read_string of #{} gave {:?}", idx, s)));
                    }
                    w(|w| w.count("strings"));
                    None
                }
                Err(VisitorError::Propagate(e)) if simple && w(|w| w.whole) => {
                    w(|w| w.bad(format!("read_string of #{} failed: {}", idx, e)));
                    None
                }
                Err(_) if !simple => {
                    w(|w| w.count("strings with elements"));
                    ignored = true;
                    None
                }
                Err(e) => Some(e),
            }
        }
        75..=84 => {
            let n = w(|w| *w.rng.pick(&w.nested));
            w(|w| w.log.push(format!("nested {} #{}", n.name, idx)));
            let r = (n.nested)(child);
            w(|w| w.count(if r.is_ok() { "typed reads" } else { "typed reads failed" }));
            ignored = r.is_err();
            None
        }
        85..=92 => {
            w(|w| {
                w.log.push(format!("hand back #{}", idx));
                w.count("handed back");
            });
            return Ok(Some(child));
        }
        _ => {
            w(|w| {
                w.log.push(format!("ignore #{}", idx));
                w.count("ignored");
            });
            None
        }
    };
    if let Some(e) = result {
        return match handle(e, handler) {
            Some(e) => Err(e),
            None => Ok(None),
        };
    }
    // Fails although the child was fine.
    match w(|w| {
        let p = w.raise_percent;
        w.raise(p, flat.chain.clone(), handler.saturating_sub(1), ignored)
    }) {
        Some(e) if handler > 0 => Err(VisitorError::Wrap(Box::new(e))),
        e => {
            if e.is_some() {
                w(|w| w.raised = None);
            }
            Ok(None)
        }
    }
}

/// The given depth's handler got an error; returns what it passes on.
fn handle(e: VisitorError, handler: usize) -> Option<VisitorError> {
    let x = match &e {
        VisitorError::Propagate(x) => x.clone(),
        VisitorError::Wrap(_) => {
            w(|w| w.bad("read_to returned a Wrap".to_owned()));
            return None;
        }
    };
    match abandoned(&x) {
        Some(id) => w(|w| {
            match &w.raised {
                Some(r) if r.id == id => {
                    if r.target != handler {
                        return Some(e);
                    }
                    if handler == 0 && w.rng.chance(60) {
                        return Some(e);
                    }
                    w.raised = None;
                    w.log.push(format!("{} ignored", id));
                    w.count("errors ignored");
                    None
                }
                _ => {
                    w.bad(format!("got error {}, which isn't on its way", id));
                    None
                }
            }
        }),
        None => w(|w| {
            if w.whole {
                w.bad(format!("unexpected error {}", x));
            }
            w.fatal = true;
            if w.swallow {
                None
            } else {
                Some(e)
            }
        }),
    }
}

impl ElementVisitor for V {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        w(|w| w.callback("attribute"));
        if self.started {
            self.bad(format!("attribute {} after content", name));
        }
        // The next one.
        let i = self.attrs_seen.iter().position(|s| !s).filter(|i| {
            let (ns, local, v) = &self.flat.attrs[*i];
            same(name, ns, local) && *v == value
        });
        match i {
            Some(i) => self.attrs_seen[i] = true,
            None => self.bad(format!("attribute {}={:?}, all are {:?}, seen {:?}", name, value, self.flat.attrs, self.attrs_seen)),
        }
        let d = self.depth() - 1;
        if let Some(e) = w(|w| {
            let p = w.raise_percent;
            w.raise(p, self.flat.chain.clone(), d, false)
        }) {
            return Err(VisitorError::Wrap(Box::new(e)));
        }
        Ok(if w(|w| w.rng.chance(50)) { Some(value) } else { None })
    }

    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        w(|w| w.callback("element"));
        self.begin();
        self.flush();
        let Some(FlatNode::Elem(i)) = self.flat.nodes.get(self.next) else {
            self.bad(format!("element {} instead of node {} of {}", child.expanded_name(), self.next, self.flat.nodes.len()));
            return Ok(None);
        };
        self.next += 1;
        let (i, d) = (*i, self.depth());
        if let Some(e) = w(|w| {
            let (p, c) = (w.raise_percent, w.flats[i].chain.clone());
            w.raise(p, c, d - 1, false)
        }) {
            check_child(&child, i);
            return Err(VisitorError::Wrap(Box::new(e)));
        }
        act(child, i, d)
    }

    fn characters(&mut self, s: String, at: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        w(|w| w.callback("characters"));
        self.begin();
        self.text.push_str(&s);
        let d = self.depth() - 1;
        w(|w| {
            let places = &w.raw.elems[self.idx].texts;
            match (self.pieces..places.len()).find(|i| places[*i] == at) {
                Some(i) => self.pieces = i + 1,
                None => {
                    let m = format!("text {:?} of element #{} said to be at {}, texts are at {:?}", s, self.idx, at, places);
                    w.misplaced.push(m);
                }
            }
        });
        if let Some(e) = w(|w| {
            let p = w.raise_percent;
            let e = w.raise(p, self.flat.chain.clone(), d, false);
            if let (Some(_), Some(r)) = (&e, &mut w.raised) {
                r.at = at;
            }
            e
        }) {
            return Err(Box::new(e));
        }
        Ok(if w(|w| w.rng.chance(50)) { Some(s) } else { None })
    }
}

struct Root;
impl Deserialize for Root {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        act(e, 0, 0).map(|_| Root)
    }
}

fn tree(rng: &mut Rng) -> Elem {
    fn go(rng: &mut Rng, depth: usize, budget: &mut usize) -> Elem {
        const NS: &[&str] = &["", "", "urn:a", "urn:b", "http://example.com/c"];
        const N: &[&str] = &["a", "b", "c", "item", "é", "a-b"];
        let mut e = Elem::new(*rng.pick(NS), *rng.pick(N));
        for _ in 0..*rng.pick(&[0, 0, 1, 2, 4]) {
            let (ns, n) = (*rng.pick(NS), *rng.pick(N));
            if !e.attrs.iter().any(|a| a.ns == ns && a.local == n) {
                let t = rng.xml_text(5);
                e.attr(ns, n, &t);
            }
        }
        for _ in 0..*rng.pick(&[0, 1, 2, 3, 5]) {
            if depth > 0 && *budget > 0 && rng.chance(60) {
                *budget -= 1;
                let c = go(rng, depth - 1, budget);
                e.children.push(Node::E(c));
            } else {
                let t = if rng.chance(30) { "  ".to_owned() } else { rng.xml_text(5) };
                e.children.push(Node::T(t));
            }
        }
        e
    }
    let depth = *rng.pick(&[2, 4, 8, 20]);
    let mut budget = *rng.pick(&[5, 20, 40]);
    let mut t = go(rng, depth, &mut budget);
    // Sometimes rather deep.
    if rng.chance(5) {
        for i in 0..rng.below(120) {
            let mut o = Elem::new("", if i % 2 == 0 { "d" } else { "e" });
            if rng.chance(30) {
                o.children.push(Node::T("t".to_owned()));
            }
            o.children.push(Node::E(t));
            if rng.chance(30) {
                o.children.push(Node::E(Elem::new("", "after")));
            }
            t = o;
        }
    }
    t
}

pub fn c17(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(24_000, 2_500_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let Some(doc) = document(e, &mut rng) else { continue };
        let style = Style::random(&mut rng);
        let text = xml::render(&doc, &style, &mut rng);
        // Fully, with all kinds of behaviour, and cut off.
        for run in 0..6 {
            visit(ctx, &reg, e, &doc, &text, run < 4, false, &mut rng);
            if run == 0 {
                careless(ctx, &doc, &mut rng);
            }
        }
    }
}

fn document(e: &Entry, rng: &mut Rng) -> Option<Elem> {
    let doc = if rng.chance(50) { tree(rng) } else { gen_doc((e.desc)(), rng) };
    (doc.count() <= 200).then_some(doc)
}

/// The part of C16 about errors from hand-written visitors.
pub fn placed_errors(ctx: &mut Ctx, reg: &[Entry], e: &Entry, rng: &mut Rng) {
    let Some(doc) = document(e, rng) else { return };
    let text = xml::render(&doc, &Style::random(rng), rng);
    for _ in 0..3 {
        visit(ctx, reg, e, &doc, &text, true, true, rng);
    }
}

/// One run of visitors over a document, or over the beginning of one.
fn visit(ctx: &mut Ctx, reg: &[Entry], e: &Entry, doc: &Elem, text: &str, whole: bool, placed: bool, rng: &mut Rng) {
    let mut slots = Vec::new();
    flatten(&doc.normalized(), &[], &mut slots);
    let flats: Vec<Rc<Flat>> = slots.into_iter().map(|f| Rc::new(f.unwrap())).collect();
    let bytes = if whole { text.as_bytes() } else { &text.as_bytes()[..rng.below(root_end(&tokens(text)))] };
    let raw = raw(text.as_bytes());
    if raw.error.is_some() || raw.elems.len() != flats.len() {
        ctx.hit("not tokenized as expected");
        return;
    }
    let world = World {
        rng: rng.fork(),
        flats,
        raw,
        nested: vec![*e, *rng.pick(reg)],
        raise_percent: if placed { *rng.pick(&[1, 3, 10, 30]) } else { *rng.pick(&[0, 1, 3, 10]) },
        whole,
        swallow: rng.chance(50),
        fatal: false,
        raised: None,
        last_id: 0,
        errors: Vec::new(),
        misplaced: Vec::new(),
        log: Vec::new(),
        counts: Vec::new(),
    };
    W.with(|w| *w.borrow_mut() = Some(world));
    let r = guard(|| static_xml::read::<_, Root>(bytes));
    let mut world = W.with(|w| w.borrow_mut().take()).unwrap();
    let mut outcome = "completed";
    match &r {
        Err(p) => world.bad(p.clone()),
        Ok(Ok(Root)) => {
            if !whole {
                world.bad("no error, although the document is cut off".to_owned());
            }
            if let Some(r) = &world.raised {
                let m = format!("error {} got lost", r.id);
                world.bad(m);
            }
        }
        Ok(Err(x)) => match (abandoned(x), world.raised.take()) {
            (Some(id), Some(r)) if id == r.id => {
                let want: Vec<_> = r.chain.iter().map(|i| &world.raw.elems[*i]).collect();
                let got = x.stack();
                let fine = got.len() >= want.len()
                    && (r.loose || got.len() == want.len())
                    && got.iter().zip(&want).all(|(g, w)| g.name == w.name && g.pos == w.start);
                if !fine {
                    let m = format!("error {} should have elements {:?} as its stack: {}", id, r.chain, x);
                    world.misplaced.push(m.clone());
                    world.bad(m);
                } else if !r.loose {
                    match super::faults::check_error(x, &want) {
                        Err(m) => world.misplaced.push(format!("{}; error {}", m, x)),
                        Ok((msg, at)) => {
                            if at != (r.at.row, r.at.column) {
                                world.misplaced.push(format!("error {} is at {}: {}", id, r.at, x));
                            }
                            if msg != Abandon(id).to_string() {
                                world.misplaced.push(format!("error {} has another message: {}", id, x));
                            }
                        }
                    }
                }
                outcome = "error from a visitor";
            }
            (Some(id), _) => world.bad(format!("error {} out of nowhere", id)),
            (None, _) if whole => world.bad(format!("unexpected error {}", x)),
            (None, _) => outcome = "error for a document cut off",
        },
    }
    ctx.eval(hash(bytes) ^ hash(world.log.join(";").as_bytes()));
    if placed {
        ctx.hit(&format!("visitors: {}", outcome));
    } else {
        ctx.hit(outcome);
        for (k, n) in &world.counts {
            ctx.add(k, *n);
        }
    }
    let found = if placed { &world.misplaced } else { &world.errors };
    if !found.is_empty() {
        ctx.violation(format!(
            "{}; actions: {}; document {:?}",
            clip(&found.join("; "), 2000),
            clip(&world.log.join(", "), 1500),
            clip(&String::from_utf8_lossy(bytes), 2500)
        ));
    }
    ctx.sample(|| format!("document {:?} actions: {}", clip(text, 600), clip(&world.log.join(", "), 600)));
}

/// Derived types with fields which are read in all the ways allowed.
#[derive(static_xml_derive::Deserialize, Debug)]
struct Host {
    careless: Vec<Careless>,
    leaf: Vec<String>,
    #[static_xml(flatten)]
    part: Part,
    last: Option<u32>,
}

#[derive(static_xml_derive::Deserialize, Debug)]
struct Part {
    other: Vec<String>,
    also: Vec<Careless>,
}

#[derive(Debug)]
struct Careless;

struct Wild;

fn roll(n: usize) -> usize {
    R.with(|r| r.borrow_mut().below(n))
}

thread_local! {
    static R: RefCell<Rng> = RefCell::new(Rng::new(0));
}

impl Deserialize for Careless {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        match roll(6) {
            0 => {}
            1 => drop(e.read_string()),
            _ => drop(e.read_to(&mut Wild)),
        }
        Ok(Careless)
    }
}

impl ElementVisitor for Wild {
    fn attribute(&mut self, _: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        if roll(12) == 0 {
            return Err(VisitorError::Wrap(Box::new(Abandon(0))));
        }
        Ok(Some(v))
    }
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        match roll(10) {
            0 => return Ok(Some(c)),
            1 => return Err(VisitorError::Wrap(Box::new(Abandon(0)))),
            2 => drop(c),
            3 => drop(c.read_string()),
            4 | 5 => drop(c.read_to(&mut Wild)),
            6 => {
                c.read_to(&mut Wild)?;
                return Err(VisitorError::Wrap(Box::new(Abandon(0))));
            }
            _ => drop(c.read_to(&mut Wild)?),
        }
        Ok(None)
    }
    fn characters(&mut self, s: String, _: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        if roll(12) == 0 {
            return Err(Box::new(Abandon(0)));
        }
        Ok(Some(s))
    }
}

fn careless(ctx: &mut Ctx, sub: &Elem, rng: &mut Rng) {
    let mut doc = Elem::new("", "host");
    let (mut leaf, mut other, mut n, mut also, mut last) = (Vec::new(), Vec::new(), 0, 0, None);
    for _ in 0..rng.range(1, 8) {
        let named = |e: &Elem, local: &str| {
            let mut e = e.clone();
            e.ns = String::new();
            e.local = local.to_owned();
            e
        };
        let simple = |local: &str, t: &str| {
            let mut e = Elem::new("", local);
            e.children.push(Node::T(t.to_owned()));
            e
        };
        let e = match rng.below(7) {
            0 | 1 => {
                n += 1;
                named(sub, "careless")
            }
            2 => {
                also += 1;
                named(sub, "also")
            }
            3 => {
                leaf.push(rng.xml_text(6));
                simple("leaf", leaf.last().unwrap())
            }
            4 => {
                other.push(rng.xml_text(6));
                simple("other", other.last().unwrap())
            }
            5 if last.is_none() => {
                last = Some(rng.below(1000) as u32);
                simple("last", &last.unwrap().to_string())
            }
            _ => named(sub, "unknown"),
        };
        doc.children.push(Node::E(e));
    }
    let text = xml::render(&doc, &Style::random(rng), rng);
    R.with(|r| *r.borrow_mut() = rng.fork());
    let r = guard(|| static_xml::de::from_str::<Host>(&text));
    ctx.eval(hash(text.as_bytes()));
    ctx.hit("careless fields of derived types");
    let m = match r {
        Err(p) => p,
        Ok(Err(e)) => format!("error {}", e),
        Ok(Ok(h)) => {
            let got = (h.careless.len(), h.leaf, h.part.other, h.part.also.len(), h.last);
            let want = (n, leaf, other, also, last);
            if got == want {
                return;
            }
            format!("{:?} instead of {:?}", got, want)
        }
    };
    ctx.violation(format!("fields next to ones that aren't read completely: {}; document {:?}", clip(&m, 1500), clip(&text, 2500)));
}
