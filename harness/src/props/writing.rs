//! C10–C12, C21: what a value is written as.

use super::*;

/// Do two sibling attributes have the same name?
fn duplicate_attrs(e: &Elem) -> bool {
    e.attrs.iter().enumerate().any(|(i, a)| e.attrs[..i].iter().any(|b| (&a.ns, &a.local) == (&b.ns, &b.local)))
        || e.elems().any(duplicate_attrs)
}

/// Drops the white space indentation may add.
pub fn unindent(got: &Elem, want: &Elem) -> Elem {
    let mut o = got.clone();
    let mixed = want.children.iter().any(|c| matches!(c, Node::T(_)));
    let has_elems = want.elems().next().is_some();
    let mut kids = Vec::new();
    let mut wants = want.elems();
    for c in &got.children {
        match c {
            Node::E(x) => {
                kids.push(Node::E(match wants.next() {
                    Some(w) => unindent(x, w),
                    None => x.clone(),
                }));
            }
            Node::T(t) if has_elems && !mixed && t.chars().all(is_ws) => {}
            c => kids.push(c.clone()),
        }
    }
    o.children = kids;
    o
}

/// The sorted attributes and everything else as it is.
pub fn sorted(e: &Elem) -> Elem {
    let mut o = e.clone();
    o.attrs.sort_by(|a, b| (&a.ns, &a.local).cmp(&(&b.ns, &b.local)));
    o.children = o.children.into_iter().map(|c| if let Node::E(x) = c { Node::E(sorted(&x)) } else { c }).collect();
    o
}

pub fn first_difference(a: &Elem, b: &Elem) -> String {
    let (a, b) = (a.show(), b.show());
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("expected {:?}, got {:?}", x, y);
        }
    }
    format!("expected {} lines, got {}: {:?} vs. {:?}", a.lines().count(), b.lines().count(), clip(&a, 800), clip(&b, 800))
}

/// Serializes with all options; the output must be exactly the document the type describes.
pub fn check_output(ctx: &mut Ctx, e: &Entry, v: &Val, what: &str) {
    let d = (e.desc)();
    let want = expect_tree(d, v);
    let refuse = duplicate_attrs(&want);
    let mixed = is_mixed(d);
    for o in Opts::ALL {
        let r = guard(|| (e.write_string)(v, Some(o)));
        let text = match (r, refuse) {
            (Ok(Ok(t)), false) => t,
            (Ok(Err(_)), true) => {
                ctx.hit(&format!("{}: refused a duplicate attribute", what));
                ctx.eval(hash(want.show().as_bytes()));
                continue;
            }
            (r, _) => {
                ctx.violation(format!("{}: {} value {} with {:?}: {:?}", what, e.name, show_val(v), o, r));
                continue;
            }
        };
        check_text(ctx, &want, &text, o, mixed, &|| format!("{}: {} value {}", what, e.name, show_val(v)));
        ctx.hit(what);
    }
}

pub fn check_text(ctx: &mut Ctx, want: &Elem, text: &str, o: Opts, mixed: bool, who: &dyn Fn() -> String) {
    ctx.eval(hash(text.as_bytes()));
    let doc = match xml::parse(text) {
        Ok(d) => d,
        Err(x) => {
            ctx.violation(format!("{} with {:?}: not well-formed ({}): {:?}", who(), o, x, text));
            return;
        }
    };
    if doc.declaration != o.declaration {
        ctx.violation(format!("{} with {:?}: declaration {}: {:?}", who(), o, doc.declaration, clip(text, 300)));
    }
    let got = doc.root.normalized();
    let same = if o.indent {
        if mixed {
            // Indentation shows up in mixed content; everything but white space must be there.
            strip(&got) == strip(want)
        } else {
            unindent(&got, want) == *want
        }
    } else {
        got == *want
    };
    if !same {
        let g = if o.indent && !mixed { unindent(&got, want) } else { got };
        ctx.violation(format!("{} with {:?}: {}; written as {:?}", who(), o, first_difference(want, &g), text));
    } else {
        ctx.sample(|| format!("{} => {}", who(), text));
    }
}

/// Text without its outer white space in elements which have child elements.
fn strip(e: &Elem) -> Elem {
    let mut o = e.clone();
    let has_elems = e.elems().next().is_some();
    let mut kids: Vec<Node> = Vec::new();
    for c in o.children {
        match c {
            Node::E(x) => kids.push(Node::E(strip(&x))),
            Node::T(t) if has_elems => {
                let t = trim_ws(&t);
                if !t.is_empty() {
                    kids.push(Node::T(t.to_owned()));
                }
            }
            c => kids.push(c),
        }
    }
    o.children = kids;
    o
}

// ---------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------

/// Changes a value, keeping its type.
pub fn mutate_val(d: &Desc, v: &mut Val, rng: &mut Rng, hostile: bool) {
    match (&d.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => {
            if fs.is_empty() {
                return;
            }
            let i = rng.below(fs.len());
            mutate_ty(&fs[i].ty, &mut vs[i], rng, hostile);
        }
        (Kind::Choice(vs), Val::Choice(i, Some(p))) => mutate_ty(vs[*i].ty.as_ref().unwrap(), p, rng, hostile),
        _ => {}
    }
}

const HOSTILE: &[&str] = &[
    "\0", "a\u{1}b", "\u{8}", "\u{b}", "\u{c}", "\u{1b}[m", "\u{1f}", "\u{fffe}", "x\u{ffff}", "\u{7f}", "\u{85}", "\u{fffd}",
    "\u{10ffff}", "\u{e000}", "]]>", "<", "&", "\"'", "\r\n", "\t\n", "&#0;", "&#1;", "<![CDATA[", "-->", "?>",
];

fn mutate_ty(t: &Ty, v: &mut Val, rng: &mut Rng, hostile: bool) {
    match (t, v) {
        (t, Val::Opt(o)) => {
            if rng.chance(15) {
                *o = None;
            } else if let Some(x) = o {
                mutate_ty(t, x, rng, hostile);
            }
        }
        (t, Val::Many(m)) => match rng.below(10) {
            0 => m.clear(),
            1 if !m.is_empty() => m.push(m[0].clone()),
            _ if !m.is_empty() => {
                let i = rng.below(m.len());
                mutate_ty(t, &mut m[i], rng, hostile);
            }
            _ => {}
        },
        (Ty::Leaf(l), Val::Leaf(x)) => {
            fn strings(l: &Leaf) -> bool {
                matches!(l, Leaf::String | Leaf::Std { .. } | Leaf::Tracked | Leaf::Restr { unknown: true, .. })
            }
            if strings(l) && matches!(x, LeafVal::Str(_)) {
                let s = if hostile && rng.chance(70) {
                    let a = rng.xml_text(6);
                    let b = rng.xml_text(6);
                    format!("{}{}{}", a, rng.pick(HOSTILE), b)
                } else {
                    rng.xml_text(20)
                };
                *x = LeafVal::Str(s);
            }
        }
        (Ty::Node(n), v) => mutate_val(n(), v, rng, hostile),
        _ => {}
    }
}

fn unwritable(e: &Elem) -> bool {
    let bad = |s: &str| !s.chars().all(xml::is_xml_char);
    e.attrs.iter().any(|a| bad(&a.value))
        || e.children.iter().any(|c| match c {
            Node::E(x) => unwritable(x),
            Node::T(t) => bad(t),
            _ => false,
        })
}

/// Every string in a value which isn't only in an unwritten place; skipped alternatives.
fn has_skipped(d: &Desc, v: &Val) -> bool {
    fn ty(t: &Ty, v: &Val) -> bool {
        match (t, v) {
            (t, Val::Opt(o)) => o.as_ref().map_or(false, |x| ty(t, x)),
            (t, Val::Many(m)) => m.iter().any(|x| ty(t, x)),
            (Ty::Node(n), v) => has_skipped(n(), v),
            _ => false,
        }
    }
    match (&d.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => fs.iter().zip(vs).any(|(f, v)| ty(&f.ty, v)),
        (Kind::Choice(vs), Val::Choice(i, p)) => {
            vs[*i].skip || p.as_ref().map_or(false, |p| ty(vs[*i].ty.as_ref().unwrap(), p))
        }
        _ => false,
    }
}

pub fn c10(ctx: &mut Ctx) {
    let reg = registry();
    ctx.add("types", reg.len() as u64);
    ctx.cases(90_000, 4_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some(mut v) = gen_val(d, &mut rng) else { continue };
        let hostile = rng.chance(25);
        for _ in 0..rng.below(4) {
            mutate_val(d, &mut v, &mut rng, hostile);
        }
        if rng.below(1500) == 0 && enlarge(d, &mut v, &mut rng) {
            ctx.hit("huge");
        }
        let want = expect_tree(d, &v);
        if unwritable(&want) {
            for o in Opts::ALL {
                match guard(|| (e.write_string)(&v, Some(o))) {
                    Ok(Err(_)) => {}
                    r => ctx.violation(format!("text XML can't represent, {} value {} with {:?}: {:?}", e.name, show_val(&v), o, r)),
                }
            }
            ctx.eval(hash(want.show().as_bytes()));
            ctx.hit("refused unrepresentable text");
            continue;
        }
        check_output(ctx, e, &v, "derived");
        // With a name of the caller's choice.
        if !duplicate_attrs(&want) {
            let mut names: Vec<(&str, &str)> = vec![("", "plain"), ("", d.root.1), ("", "é-1.x")];
            names.extend(d.nss.iter().map(|(_, u)| (*u, *rng.pick(&["named", "x", "_r"]))));
            let n = *rng.pick(&names);
            let o = *rng.pick(&Opts::ALL);
            match guard(|| (e.write_named)(&v, n, o)) {
                Ok(Ok(t)) => {
                    let mut want = want.clone();
                    (want.ns, want.local) = (n.0.to_owned(), n.1.to_owned());
                    check_text(ctx, &want, &t, o, is_mixed(d), &|| format!("named {:?}: {} value {}", n, e.name, show_val(&v)));
                    ctx.hit("named");
                }
                r => ctx.violation(format!("{} value {} named {:?}: {:?}", e.name, show_val(&v), n, r)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Hand-written serializers
// ---------------------------------------------------------------------------------------------

use static_xml::ser::{ElementBuilder, ElementWriter, Error as SerError, Serialize, SerializeField};
use static_xml::ExpandedNameRef;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Calls a hand-written serializer makes before an element starts.
#[derive(Clone, Debug)]
enum Pre {
    Ns(&'static str, &'static str),
    Attr(&'static str, &'static str, String),
}

#[derive(Clone, Debug)]
enum Item {
    Text(String),
    /// Written through `SerializeField` rather than by the parent's own code.
    Field(Prog),
    Own(Prog),
    Many(Vec<Prog>),
    Opt(Option<Box<Prog>>),
}

impl Item {
    fn kids(&self) -> Vec<&Prog> {
        match self {
            Item::Text(_) => Vec::new(),
            Item::Field(p) | Item::Own(p) => vec![p],
            Item::Many(m) => m.iter().collect(),
            Item::Opt(o) => o.iter().map(|b| &**b).collect(),
        }
    }
}

/// How an element goes wrong.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum Break {
    No,
    /// The builder is dropped.
    NoStart,
    /// The writer is dropped after this many items.
    NoFinish(usize),
    /// An error after this many preparing calls.
    FailPre(usize),
    /// An error after this many items.
    FailItem(usize),
    /// A panic while preparing, or after this many items, which the parent's code catches and ignores.
    PanicPre,
    Panic(usize),
    BadText(usize),
    BadAttr,
    DuplicateAttr,
}

#[derive(Clone, Debug)]
struct Prog {
    ns: &'static str,
    local: &'static str,
    pre: Vec<Pre>,
    items: Vec<Item>,
    brk: Break,
    /// Ignore errors of children.
    ignore: bool,
}

thread_local! {
    /// Set when the first failure happened: what had been written by then.
    static FAILED_AT: Cell<Option<usize>> = const { Cell::new(None) };
    static WRITTEN: RefCell<Rc<Cell<usize>>> = RefCell::new(Rc::new(Cell::new(0)));
}

fn failed() {
    FAILED_AT.with(|f| {
        if f.get().is_none() {
            f.set(Some(WRITTEN.with(|w| w.borrow().get())));
        }
    });
}

fn name(ns: &'static str, local: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: ns, local_name: local }
}

impl Prog {
    fn prepare<'a>(&self, b: &mut ElementBuilder<'a>) -> Result<(), SerError> {
        for (i, p) in self.pre.iter().enumerate() {
            if self.brk == Break::FailPre(i) {
                failed();
                return Err(SerError("made up".to_owned()));
            }
            match p {
                Pre::Ns(p, u) => b.namespace(p, u),
                Pre::Attr(ns, l, v) => b.attribute(name(ns, l), v.clone())?,
            }
        }
        match self.brk {
            Break::FailPre(_) => {
                failed();
                return Err(SerError("made up".to_owned()));
            }
            Break::PanicPre => std::panic::panic_any(crate::tracked::InjectedPanic),
            Break::BadAttr => b.attribute(name("", "bad-attribute"), "\u{1}".to_owned())?,
            Break::DuplicateAttr => {
                b.attribute(name("", "twice"), "1".to_owned())?;
                let r = b.attribute(name("", "twice"), "2".to_owned());
                if r.is_err() {
                    failed();
                }
                r?
            }
            _ => {}
        }
        Ok(())
    }

    fn body(&self, w: &mut ElementWriter) -> Result<(), SerError> {
        let pass = |r: Result<(), SerError>| if self.ignore { Ok(()) } else { r };
        for (i, it) in self.items.iter().enumerate() {
            if self.brk == Break::FailItem(i) {
                failed();
                return Err(SerError("made up".to_owned()));
            }
            if self.brk == Break::Panic(i) {
                std::panic::panic_any(crate::tracked::InjectedPanic);
            }
            if self.brk == Break::BadText(i) {
                let r = w.text("bad \u{b} text");
                failed();
                pass(r)?;
            }
            let mut write = || match it {
                Item::Text(t) => w.text(t),
                Item::Field(p) => SerializeField::write(p, w, name(p.ns, p.local)),
                Item::Own(p) => p.write_own(w),
                Item::Opt(p) => {
                    let n = p.as_ref().map_or(name("", "none"), |p| name(p.ns, p.local));
                    SerializeField::write(&p.as_ref().map(|p| (**p).clone()), w, n)
                }
                Item::Many(m) => {
                    let n = m.first().map_or(name("", "none"), |p| name(p.ns, p.local));
                    SerializeField::write(m, w, n)
                }
            };
            if it.kids().iter().any(|k| matches!(k.brk, Break::PanicPre | Break::Panic(_))) {
                match guard(write) {
                    Ok(r) => pass(r)?,
                    Err(_) => failed(),
                }
            } else {
                pass(write())?;
            }
        }
        if let Break::Panic(_) = self.brk {
            std::panic::panic_any(crate::tracked::InjectedPanic);
        }
        if let Break::FailItem(_) = self.brk {
            failed();
            return Err(SerError("made up".to_owned()));
        }
        if let Break::BadText(i) = self.brk {
            if i >= self.items.len() {
                let r = w.text("\u{fffe}");
                failed();
                pass(r)?;
            }
        }
        Ok(())
    }

    /// Writes the element by hand.
    fn write_own(&self, parent: &mut ElementWriter) -> Result<(), SerError> {
        let mut b = parent.element(name(self.ns, self.local));
        if let Err(e) = self.prepare(&mut b) {
            drop(b);
            failed();
            return Err(e);
        }
        if self.brk == Break::NoStart {
            drop(b);
            failed();
            return Ok(());
        }
        let started = b.start();
        if started.is_err() {
            failed();
        }
        let mut w = started?;
        if let Break::NoFinish(n) = self.brk {
            for it in self.items.iter().take(n) {
                if let Item::Text(t) = it {
                    let _ = w.text(t);
                }
            }
            drop(w);
            failed();
            return Ok(());
        }
        if let Err(e) = self.body(&mut w) {
            drop(w);
            failed();
            return Err(e);
        }
        w.finish()
    }

    fn tree(&self) -> Elem {
        let mut e = Elem::new(self.ns, self.local);
        for p in &self.pre {
            if let Pre::Attr(ns, l, v) = p {
                e.attr(ns, l, v);
            }
        }
        for it in &self.items {
            match it {
                Item::Text(t) => e.children.push(Node::T(t.clone())),
                Item::Field(p) | Item::Own(p) => e.children.push(Node::E(p.tree())),
                Item::Many(m) => e.children.extend(m.iter().map(|p| Node::E(p.tree()))),
                Item::Opt(p) => e.children.extend(p.iter().map(|p| Node::E(p.tree()))),
            }
        }
        e
    }

    fn mixed(&self) -> bool {
        let t = self.items.iter().any(|i| matches!(i, Item::Text(_)));
        let kids = self.kids();
        (t && !kids.is_empty()) || kids.iter().any(|k| k.mixed())
    }

    fn kids(&self) -> Vec<&Prog> {
        self.items.iter().flat_map(|i| i.kids()).collect()
    }

    fn count(&self) -> usize {
        1 + self.kids().iter().map(|k| k.count()).sum::<usize>()
    }

    /// The n-th element in document order.
    fn nth_mut(&mut self, n: &mut usize) -> Option<&mut Prog> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for it in &mut self.items {
            let kids: Vec<&mut Prog> = match it {
                Item::Text(_) => Vec::new(),
                Item::Field(p) | Item::Own(p) => vec![p],
                Item::Many(m) => m.iter_mut().collect(),
                Item::Opt(o) => o.iter_mut().map(|b| &mut **b).collect(),
            };
            for k in kids {
                if let Some(p) = k.nth_mut(n) {
                    return Some(p);
                }
            }
        }
        None
    }
}

impl Serialize for Prog {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
        self.prepare(b)
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
        self.body(w)
    }
}

const URLS: &[&str] = &[
    "urn:a", "urn:b", "urn:c", "http://example.com/q?x=1&y=2", "a<b", "say \"hi\"", "it's", " lead", "tab\there", "line\nbreak",
    "cr\rhere", "]]>", "urn:ü", "urn:a ", "\u{1f600}", "&amp;", "urn:A",
];
const PREFIXES: &[&str] = &["", "", "a", "b", "c", "ns", "ns1", "ns2", "a2", "a3", "é", "_", "p-q", "x.y", "n", "ns12", "A"];
const LOCALS: &[&str] = &["a", "b", "item", "é", "x-y", "_z", "a.b", "xmlish", "ns1", "A"];

const MANY: usize = 300;

/// Many prefixes and URLs.
fn many() -> &'static (Vec<&'static str>, Vec<&'static str>) {
    static ALL: std::sync::OnceLock<(Vec<&'static str>, Vec<&'static str>)> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        (
            (0..MANY).map(|i| leak(format!("{}{}", ["m", "ns", "a", "x-"][i % 4], i / 4))).collect(),
            (0..MANY).map(|i| leak(format!("http://example.org/{}", i))).collect(),
        )
    })
}

struct ProgGen<'r> {
    rng: &'r mut Rng,
    urls: Vec<&'static str>,
    prefixes: Vec<&'static str>,
    budget: usize,
    depth: usize,
}

impl<'r> ProgGen<'r> {
    fn new(rng: &'r mut Rng) -> Self {
        // A small pool makes conflicts likely.
        let mut urls = URLS.to_vec();
        let mut prefixes = PREFIXES.to_vec();
        rng.shuffle(&mut urls);
        rng.shuffle(&mut prefixes);
        urls.truncate(rng.range(1, 5));
        prefixes.truncate(rng.range(1, 5));
        let budget = *rng.pick(&[1, 3, 8, 20, 40]);
        let depth = rng.range(1, 8);
        ProgGen { rng, urls, prefixes, budget, depth }
    }

    fn text(&mut self) -> String {
        self.rng.xml_text(10)
    }

    /// `parent`: URLs the parent declares.
    fn elem(&mut self, parent: &[&'static str], depth: usize) -> Prog {
        self.budget = self.budget.saturating_sub(1);
        let mut pre = Vec::new();
        let mut own: Vec<&'static str> = Vec::new();
        for _ in 0..*self.rng.pick(&[0, 0, 1, 1, 2, 3, 5]) {
            let u = *self.rng.pick(&self.urls);
            let p = *self.rng.pick(&self.prefixes);
            pre.push(Pre::Ns(p, u));
            own.push(u);
        }
        if self.rng.chance(4) && self.budget > 0 {
            // Many at once.
            for _ in 0..self.rng.size(120).unwrap_or(20) {
                let i = self.rng.below(MANY);
                let p = if self.rng.chance(90) { many().0[i] } else { *self.rng.pick(&self.prefixes) };
                let u = if self.rng.chance(90) { many().1[self.rng.below(MANY)] } else { *self.rng.pick(&self.urls) };
                pre.push(Pre::Ns(p, u));
                own.push(u);
            }
            self.rng.shuffle(&mut pre);
        }
        let mut ok: Vec<&'static str> = own.clone();
        ok.extend(parent);
        ok.push("");
        let ns = if self.rng.chance(25) {
            // The element declares its own namespace.
            let u = *self.rng.pick(&self.urls);
            if !ok.contains(&u) {
                let p = *self.rng.pick(&self.prefixes);
                pre.push(Pre::Ns(p, u));
                own.push(u);
                ok.push(u);
            }
            u
        } else {
            *self.rng.pick(&ok)
        };
        let mut attrs: Vec<Pre> = Vec::new();
        for _ in 0..self.rng.below(4) {
            let u = match self.rng.below(12) {
                0 => xml::XML_NS,
                1..=3 => "",
                _ => *self.rng.pick(&ok),
            };
            let l = *self.rng.pick(LOCALS);
            if attrs.iter().all(|a| !matches!(a, Pre::Attr(n, k, _) if (*n, *k) == (u, l))) {
                let t = self.text();
                attrs.push(Pre::Attr(u, l, t));
            }
        }
        // Attributes in order, namespaces anywhere in between.
        for a in attrs.into_iter().rev() {
            let last = pre.iter().position(|p| matches!(p, Pre::Attr(..))).unwrap_or(pre.len());
            let at = self.rng.below(last + 1);
            pre.insert(at, a);
        }
        let mut items = Vec::new();
        let n = if depth >= self.depth { self.rng.below(2) } else { self.rng.below(5) };
        for _ in 0..n {
            if depth >= self.depth || self.budget == 0 || self.rng.chance(20) {
                let t = self.text();
                items.push(Item::Text(t));
                continue;
            }
            let k = self.elem(&own, depth + 1);
            items.push(match self.rng.below(8) {
                0..=2 => Item::Field(k),
                3..=5 => Item::Own(k),
                6 => Item::Opt(Some(Box::new(k))),
                _ => {
                    let mut m = vec![k.clone()];
                    for _ in 0..self.rng.below(3) {
                        let mut x = self.elem(&own, depth + 1);
                        // All get the same name.
                        if !own.contains(&k.ns) && !x.pre.iter().any(|p| matches!(p, Pre::Ns(_, u) if *u == k.ns)) && !k.ns.is_empty() {
                            x.pre.insert(0, Pre::Ns(*self.rng.pick(&self.prefixes), k.ns));
                        }
                        (x.ns, x.local) = (k.ns, k.local);
                        m.push(x);
                    }
                    Item::Many(m)
                }
            });
        }
        Prog { ns, local: *self.rng.pick(LOCALS), pre, items, brk: Break::No, ignore: false }
    }
}

pub fn c11(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(240_000, 10_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        if rng.chance(15) {
            // Derived serializers: values of types with namespaces.
            let e = pick(&reg, case, &mut rng);
            let Some(v) = gen_val((e.desc)(), &mut rng) else { continue };
            check_output(ctx, e, &v, "derived");
            continue;
        }
        let p = ProgGen::new(&mut rng).elem(&[], 0);
        let want = p.tree().normalized();
        for o in [Opts::ALL[rng.below(4)]] {
            let r = guard(|| {
                static_xml::ser::serialize_with_name(&p, name(p.ns, p.local))
                    .perform_indent(o.indent)
                    .write_document_declaration(o.declaration)
                    .to_string()
            });
            match r {
                Ok(Ok(t)) => {
                    check_text(ctx, &want, &t, o, p.mixed(), &|| format!("{}", clip(&format!("{:?}", p), 2500)));
                    ctx.hit(&format!("hand-written, depth {}", want.depth().min(6)));
                }
                r => ctx.violation(format!("{:?}: {:?}", r, p)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C12
// ---------------------------------------------------------------------------------------------

/// Takes so many bytes, then fails.
struct Failing {
    out: Vec<u8>,
    left: usize,
    how: usize,
    failures: usize,
    after: usize,
    count: Rc<Cell<usize>>,
}

impl Failing {
    fn new(left: usize, how: usize) -> Self {
        let count = Rc::new(Cell::new(0));
        WRITTEN.with(|w| *w.borrow_mut() = count.clone());
        FAILED_AT.with(|f| f.set(None));
        Failing { out: Vec::new(), left, how, failures: 0, after: 0, count }
    }
}

impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failures > 0 {
            self.after += b.len();
            // A writer may recover; nobody should find out.
            return if self.how % 2 == 0 { Ok(b.len()) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "again")) };
        }
        let n = self.left.min(b.len());
        if n == 0 {
            self.failures += 1;
            LOGGED_AT_FAILURE.with(|l| l.set(Some(LOG.with(|l| l.borrow().len()))));
            if self.how / 2 == 0 {
                return Ok(0);
            }
            use std::io::ErrorKind::*;
            let kinds = [Other, WouldBlock, TimedOut, BrokenPipe, UnexpectedEof, WriteZero, ConnectionReset, PermissionDenied];
            return Err(std::io::Error::new(kinds[(self.out.len() + self.how) % kinds.len()], "made up failure"));
        }
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        self.count.set(self.out.len());
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Takes few bytes at a time, and is interrupted.
struct Short<'r> {
    out: Vec<u8>,
    rng: &'r mut Rng,
    max: usize,
    interrupts: bool,
}

impl<'r> std::io::Write for Short<'r> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.interrupts && self.rng.chance(30) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = self.rng.range(1, self.max).min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Serializes something to any writer.
type Target<'a> = &'a dyn Fn(Opts, &mut dyn std::io::Write) -> Result<(), SerError>;

fn faults(ctx: &mut Ctx, who: &str, t: Target, rng: &mut Rng) {
    let o = *rng.pick(&Opts::ALL);
    let mut whole = Failing::new(usize::MAX, 1);
    match guard(|| t(o, &mut whole)) {
        Ok(Ok(())) => {}
        Ok(Err(_)) => {
            ctx.hit("not serializable");
            return;
        }
        Err(p) => {
            ctx.violation(format!("{}: {}", who, p));
            return;
        }
    }
    let bytes = whole.out;
    // A failure at each byte.
    let all = bytes.len() <= if ctx.thorough { 4000 } else { 400 };
    let points: Vec<usize> = if all {
        (0..bytes.len()).collect()
    } else {
        (0..200).map(|_| rng.below(bytes.len())).chain(bytes.len() - 20..bytes.len()).collect()
    };
    for k in points {
        let how = rng.below(4);
        let mut w = Failing::new(k, how);
        let r = guard(|| t(o, &mut w));
        ctx.eval(hash(&bytes) ^ mix(k as u64 * 4 + how as u64 + 1));
        ctx.hit("writer failures");
        match r {
            Ok(Err(_)) if w.failures > 0 => {}
            r => {
                ctx.violation(format!("{} with {:?}: {:?} although writing failed after {} of {} bytes", who, o, r, k, bytes.len()));
                return;
            }
        }
        if w.after > 0 {
            ctx.violation(format!("{} with {:?}: {} bytes written after the failure at byte {}", who, o, w.after, k));
            return;
        }
        if w.out != bytes[..k] {
            ctx.violation(format!("{} with {:?}: not the same first {} bytes before the failure", who, o, k));
            return;
        }
    }
    // Short writes.
    for (max, interrupts) in [(1, false), (1, true), (7, rng.chance(50)), (64, true)] {
        let mut r2 = rng.fork();
        let mut w = Short { out: Vec::new(), rng: &mut r2, max, interrupts };
        let r = guard(|| t(o, &mut w));
        ctx.eval(hash(&bytes) ^ mix(max as u64 + 1000 * interrupts as u64 + 7));
        ctx.hit("short or interrupted writers");
        if !matches!(r, Ok(Ok(()))) || w.out != bytes {
            ctx.violation(format!(
                "{} with {:?}, writing at most {} bytes{}: {:?}, {:?} instead of {:?}",
                who, o, max, if interrupts { ", interrupted" } else { "" }, r,
                String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&bytes)
            ));
        }
    }
    ctx.sample(|| format!("{}: failed at each of {} bytes", who, bytes.len()));
}

pub fn c12(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(16_000, 600_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        match case % 3 {
            0 => {
                let e = pick(&reg, case / 3, &mut rng);
                let d = (e.desc)();
                let Some(v) = gen_val(d, &mut rng) else { continue };
                faults(ctx, &format!("{} value {}", e.name, show_val(&v)), &|o, w| (e.write)(&v, o, w), &mut rng);
                // Something inside which can't be written.
                let mut bad = v.clone();
                for _ in 0..8 {
                    let mut b = bad.clone();
                    mutate_val(d, &mut b, &mut rng, true);
                    bad = b;
                }
                let want = expect_tree(d, &bad);
                let unprintable = {
                    let mut b = bad.clone();
                    poison_tracked(d, &mut b, &mut rng).then_some(b)
                };
                if unwritable(&want) {
                    expect_refusal(ctx, &format!("{} value {}", e.name, show_val(&bad)), &|o, w| (e.write)(&bad, o, w), &mut rng);
                    ctx.hit("unrepresentable text in a derived type");
                }
                if let Some(b) = unprintable {
                    expect_refusal(ctx, &format!("{} value {}", e.name, show_val(&b)), &|o, w| (e.write)(&b, o, w), &mut rng);
                    ctx.hit("unprintable value in a derived type");
                }
            }
            1 => {
                let mut p = ProgGen::new(&mut rng).elem(&[], 0);
                if rng.chance(50) {
                    ignore_all(&mut p, &mut rng);
                }
                faults(ctx, &clip(&format!("{:?}", p), 2000), &|o, w| write_prog(&p, o, w), &mut rng);
            }
            _ => {
                // Elements abandoned here and there, errors ignored.
                let base = ProgGen::new(&mut rng).elem(&[], 0);
                let n = base.count();
                for _ in 0..8 {
                    let mut p = base.clone();
                    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                        let mut at = rng.below(n);
                        let root = at == 0;
                        let x = p.nth_mut(&mut at).unwrap();
                        let k = rng.below(x.items.len() + 2);
                        x.brk = match rng.below(if root { 5 } else { 9 }) {
                            0 => Break::FailPre(rng.below(x.pre.len() + 1)),
                            1 => Break::FailItem(k),
                            2 => Break::BadText(k),
                            3 => Break::BadAttr,
                            4 => Break::DuplicateAttr,
                            5 => Break::NoStart,
                            6 => Break::PanicPre,
                            7 => Break::Panic(k),
                            _ => Break::NoFinish(rng.below(3)),
                        };
                        ctx.hit(&format!("abandoned: {:?}", x.brk).split('(').next().unwrap().to_owned());
                    }
                    if rng.chance(80) {
                        ignore_all(&mut p, &mut rng);
                    }
                    own_if_abandoned(&mut p);
                    expect_refusal(ctx, &clip(&format!("{:?}", p), 2500), &|o, w| write_prog(&p, o, w), &mut rng);
                }
            }
        }
    }
}

fn write_prog(p: &Prog, o: Opts, w: &mut dyn std::io::Write) -> Result<(), SerError> {
    static_xml::ser::serialize_with_name(p, name(p.ns, p.local))
        .perform_indent(o.indent)
        .write_document_declaration(o.declaration)
        .to(w)
}

fn ignore_all(p: &mut Prog, rng: &mut Rng) {
    let n = p.count();
    for i in 0..n {
        if rng.chance(85) {
            p.nth_mut(&mut { i }).unwrap().ignore = true;
        }
    }
}

/// Only code of one's own can abandon an element without an error.
fn own_if_abandoned(p: &mut Prog) {
    let items = std::mem::take(&mut p.items);
    for mut it in items {
        match &mut it {
            Item::Field(k) | Item::Own(k) => own_if_abandoned(k),
            Item::Many(m) => m.iter_mut().for_each(own_if_abandoned),
            Item::Opt(Some(k)) => own_if_abandoned(k),
            _ => {}
        }
        let quiet = |k: &Prog| matches!(k.brk, Break::NoStart | Break::NoFinish(_));
        match it {
            Item::Field(k) if quiet(&k) => p.items.push(Item::Own(k)),
            Item::Opt(Some(k)) if quiet(&k) => p.items.push(Item::Own(*k)),
            Item::Many(m) if m.iter().any(quiet) => p.items.extend(m.into_iter().map(Item::Own)),
            it => p.items.push(it),
        }
    }
}

/// The serialization must fail, and nothing may be written after it did.
fn expect_refusal(ctx: &mut Ctx, who: &str, t: Target, rng: &mut Rng) {
    let o = *rng.pick(&Opts::ALL);
    let mut w = Failing::new(usize::MAX, 1);
    let r = guard(|| t(o, &mut w));
    let at = FAILED_AT.with(|f| f.get());
    ctx.eval(hash(who.as_bytes()));
    match r {
        Ok(Err(_)) => {}
        r => {
            ctx.violation(format!("{} with {:?}: {:?} although it's incomplete: {:?}", who, o, r, String::from_utf8_lossy(&w.out)));
            return;
        }
    }
    match at {
        Some(n) if w.out.len() > n => ctx.violation(format!(
            "{} with {:?}: {:?} written after the failure",
            who, o, String::from_utf8_lossy(&w.out[n..])
        )),
        Some(_) => ctx.hit("nothing written after a failure"),
        None => {}
    }
}

/// Makes one tracked value unprintable, if there is any.
fn poison_tracked(d: &Desc, v: &mut Val, rng: &mut Rng) -> bool {
    let mut n = 0;
    each_tracked(d, v, &mut |_| n += 1);
    if n == 0 {
        return false;
    }
    let k = rng.below(n);
    let mut i = 0;
    each_tracked(d, v, &mut |s| {
        if i == k {
            *s = "!unprintable".to_owned();
        }
        i += 1;
    });
    true
}

// ---------------------------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------------------------

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static FAIL_AT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// How many callbacks there had been when the writer failed.
    static LOGGED_AT_FAILURE: Cell<Option<usize>> = const { Cell::new(None) };
}

fn log(s: String) -> Result<(), SerError> {
    LOG.with(|l| l.borrow_mut().push(s));
    if LOG.with(|l| l.borrow().len()) > FAIL_AT.with(|f| f.get()) {
        return Err(SerError("made up".to_owned()));
    }
    Ok(())
}

/// A value which records what it's asked for.
#[derive(Clone, Debug)]
pub struct Logged {
    id: u32,
    kids: Vec<Logged>,
    text: LoggedText,
}

#[derive(Clone, Debug)]
pub struct LoggedText(u32);

impl static_xml::ser::ToText for LoggedText {
    fn to_text(&self) -> Result<String, SerError> {
        log(format!("text {}", self.0))?;
        Ok(self.0.to_string())
    }
}

impl Serialize for Logged {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
        log(format!("attributes {}", self.id))?;
        static_xml::ser::SerializeAttr::write(&self.text, b, ExpandedNameRef {
            namespace: "",
            local_name: IDS[self.id as usize % IDS.len()],
        })?;
        log(format!("attributes {} end", self.id))
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
        log(format!("children {}", self.id))?;
        for k in &self.kids {
            SerializeField::write(k, w, name("", "k"))?;
        }
        log(format!("children {} end", self.id))
    }
}

const IDS: &[&str] = &[
    "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13", "a14", "a15", "a16", "a17", "a18", "a19",
    "a20", "a21", "a22", "a23", "a24", "a25", "a26", "a27", "a28", "a29", "a30", "a31", "a32", "a33", "a34", "a35", "a36", "a37",
    "a38", "a39", "a40", "a41", "a42", "a43", "a44", "a45", "a46", "a47", "a48", "a49", "a50", "a51", "a52", "a53", "a54", "a55",
];

use static_xml_derive::Serialize as DeriveSerialize;

#[derive(Debug, DeriveSerialize)]
pub struct Holder {
    one: Logged,
    #[static_xml(attribute)]
    at: LoggedText,
    #[static_xml(flatten)]
    f1: Logged,
    opt: Option<Logged>,
    #[static_xml(flatten)]
    f2: HolderInner,
    many: Vec<Logged>,
    #[static_xml(attribute)]
    at2: Option<LoggedText>,
    #[static_xml(flatten)]
    f3: Pick,
    leafs: Vec<LoggedText>,
    nested: Vec<HolderInner>,
    last: Logged,
}

#[derive(Debug, DeriveSerialize)]
#[static_xml(namespace = "i: urn:i")]
pub struct HolderInner {
    #[static_xml(attribute, prefix = "i")]
    in_at: LoggedText,
    #[static_xml(prefix = "i")]
    in_one: Logged,
    #[static_xml(flatten)]
    in_flat: Logged,
    #[static_xml(text)]
    txt: LoggedText,
    in_opt: Option<LoggedText>,
}

#[derive(Debug, DeriveSerialize)]
pub enum Pick {
    P(Logged),
    Q(Vec<Logged>),
    R(HolderInner),
    S(Option<LoggedText>),
    U,
}

struct Maker<'r> {
    rng: &'r mut Rng,
    next: u32,
}

impl<'r> Maker<'r> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn logged(&mut self, depth: usize) -> Logged {
        let id = self.id();
        let n = if depth == 0 || self.next > 40 { 0 } else { self.rng.below(4) };
        let text = LoggedText(self.id());
        Logged { id, kids: (0..n).map(|_| self.logged(depth - 1)).collect(), text }
    }
    fn text(&mut self) -> LoggedText {
        LoggedText(self.id())
    }
    fn many(&mut self) -> Vec<Logged> {
        if self.rng.below(60) == 0 && !cfg!(miri) {
            let n = self.rng.size(2100).unwrap_or(1200);
            return (0..n).map(|_| self.logged(0)).collect();
        }
        (0..self.rng.below(4)).map(|_| self.logged(1)).collect()
    }
    fn inner(&mut self) -> HolderInner {
        HolderInner {
            in_at: self.text(),
            in_one: self.logged(1),
            in_flat: self.logged(1),
            txt: self.text(),
            in_opt: if self.rng.chance(50) { Some(self.text()) } else { None },
        }
    }
    fn pick(&mut self) -> Pick {
        match self.rng.below(5) {
            0 => Pick::P(self.logged(2)),
            1 => Pick::Q(self.many()),
            2 => Pick::R(self.inner()),
            3 => Pick::S(if self.rng.chance(50) { Some(self.text()) } else { None }),
            _ => Pick::U,
        }
    }
    fn holder(&mut self) -> Holder {
        Holder {
            one: self.logged(2),
            at: self.text(),
            f1: self.logged(2),
            opt: if self.rng.chance(50) { Some(self.logged(1)) } else { None },
            f2: self.inner(),
            many: self.many(),
            at2: if self.rng.chance(50) { Some(self.text()) } else { None },
            f3: self.pick(),
            leafs: (0..self.rng.below(3)).map(|_| self.text()).collect(),
            nested: (0..self.rng.below(3)).map(|_| self.inner()).collect(),
            last: self.logged(1),
        }
    }
}

/// The expected log.
trait Expect {
    fn attrs(&self, o: &mut Vec<String>);
    fn body(&self, o: &mut Vec<String>);
    fn element(&self, o: &mut Vec<String>) {
        self.attrs(o);
        self.body(o);
    }
}

impl Expect for Logged {
    fn attrs(&self, o: &mut Vec<String>) {
        o.push(format!("attributes {}", self.id));
        o.push(format!("text {}", self.text.0));
        o.push(format!("attributes {} end", self.id));
    }
    fn body(&self, o: &mut Vec<String>) {
        o.push(format!("children {}", self.id));
        self.kids.iter().for_each(|k| k.element(o));
        o.push(format!("children {} end", self.id));
    }
}

impl Expect for LoggedText {
    fn attrs(&self, _: &mut Vec<String>) {}
    fn body(&self, o: &mut Vec<String>) {
        o.push(format!("text {}", self.0));
    }
}

impl Expect for HolderInner {
    fn attrs(&self, o: &mut Vec<String>) {
        self.in_at.body(o);
        self.in_flat.attrs(o);
    }
    fn body(&self, o: &mut Vec<String>) {
        self.txt.body(o);
        self.in_one.element(o);
        self.in_opt.iter().for_each(|x| x.element(o));
        self.in_flat.body(o);
    }
}

impl Expect for Pick {
    fn attrs(&self, _: &mut Vec<String>) {}
    fn body(&self, o: &mut Vec<String>) {
        match self {
            Pick::P(l) => l.element(o),
            Pick::Q(m) => m.iter().for_each(|l| l.element(o)),
            Pick::R(r) => r.element(o),
            Pick::S(s) => s.iter().for_each(|l| l.element(o)),
            Pick::U => {}
        }
    }
}

impl Expect for Holder {
    fn attrs(&self, o: &mut Vec<String>) {
        self.at.body(o);
        self.at2.iter().for_each(|a| a.body(o));
        self.f1.attrs(o);
        self.f2.attrs(o);
        self.f3.attrs(o);
    }
    fn body(&self, o: &mut Vec<String>) {
        self.one.element(o);
        self.opt.iter().for_each(|x| x.element(o));
        self.many.iter().for_each(|x| x.element(o));
        self.leafs.iter().for_each(|x| x.element(o));
        self.nested.iter().for_each(|x| x.element(o));
        self.last.element(o);
        self.f1.body(o);
        self.f2.body(o);
        self.f3.body(o);
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.cases(12_000, 700_000);
    while let Some((_, mut rng)) = ctx.next_case() {
        let kind = rng.below(3);
        let mut m = Maker { rng: &mut rng, next: 0 };
        let (value, want, n): (Box<dyn Serialize>, Vec<String>, ExpandedNameRef) = match kind {
            0 => {
                let l = m.logged(4);
                let mut w = Vec::new();
                l.element(&mut w);
                (Box::new(l), w, name("", "r"))
            }
            1 => {
                let l = m.inner();
                let mut w = Vec::new();
                l.element(&mut w);
                (Box::new(l), w, name("urn:i", "r"))
            }
            _ => {
                let l = m.holder();
                let mut w = Vec::new();
                l.element(&mut w);
                (Box::new(l), w, name("", "r"))
            }
        };
        // Ids are unique, so attributes of different flattened values never clash as long as names are.
        let o = *rng.pick(&Opts::ALL);
        let run = |fail: usize, w: &mut dyn std::io::Write| {
            LOG.with(|l| l.borrow_mut().clear());
            FAIL_AT.with(|f| f.set(fail));
            let r = guard(|| {
                static_xml::ser::serialize_with_name(&*value, n)
                    .perform_indent(o.indent)
                    .write_document_declaration(o.declaration)
                    .to(w)
            });
            (r, LOG.with(|l| l.borrow().clone()))
        };
        let to_string = |fail: usize| {
            LOG.with(|l| l.borrow_mut().clear());
            FAIL_AT.with(|f| f.set(fail));
            let r = guard(|| {
                static_xml::ser::serialize_with_name(&*value, n)
                    .perform_indent(o.indent)
                    .write_document_declaration(o.declaration)
                    .to_string()
            });
            (r, LOG.with(|l| l.borrow().clone()))
        };
        let mut out = Vec::new();
        let (r, log) = run(usize::MAX, &mut out);
        if matches!(&r, Ok(Err(e)) if e.0.contains("already has value")) {
            ctx.hit("clashing attribute names");
            continue;
        }
        ctx.eval(hash(want.join("\n").as_bytes()));
        ctx.add("callbacks observed", log.len() as u64);
        if !matches!(r, Ok(Ok(()))) || log != want {
            let i = log.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(log.len().min(want.len()));
            ctx.violation(format!(
                "{:?}: callback {} should be {:?}, is {:?}; expected {:?}, got {:?}",
                r, i, want.get(i), log.get(i), want, log
            ));
            continue;
        }
        let (r, log) = to_string(usize::MAX);
        if !matches!(&r, Ok(Ok(t)) if t.as_bytes() == out) || log != want {
            ctx.violation(format!("to a string with {:?}: expected {:?}, got {:?}; {:?} instead of {:?}", o, want, log, r, String::from_utf8_lossy(&out)));
            continue;
        }
        ctx.hit("to a string");
        ctx.sample(|| format!("{:?}", want));
        // An error in each callback: none is made after it.
        let few = want.len() > 200;
        for k in 0..want.len() {
            if few && !rng.chance(4) {
                continue;
            }
            let (r, log) = if rng.chance(70) {
                run(k, &mut Vec::new())
            } else {
                let (r, log) = to_string(k);
                (r.map(|r| r.map(drop)), log)
            };
            ctx.eval(hash(want.join("\n").as_bytes()) ^ mix(k as u64 + 1));
            ctx.hit("failing callbacks");
            if !matches!(r, Ok(Err(_))) || log != want[..=k] {
                ctx.violation(format!("{:?} with callback {} failing: expected {:?}, got {:?}", r, k, &want[..=k], log));
                break;
            }
        }
        // Nor once the writer failed: values after it aren't asked.
        for _ in 0..4 {
            let at = rng.below(out.len());
            let mut w = Failing::new(at, 3);
            let (r, log) = run(usize::MAX, &mut w);
            let asked = LOGGED_AT_FAILURE.with(|l| l.take());
            if !matches!(r, Ok(Err(_))) || log != want[..log.len().min(want.len())] || asked != Some(log.len()) {
                ctx.violation(format!(
                    "{:?} with the writer failing at {}, after callback {:?}: expected nothing more of {:?}, got {:?}",
                    r, at, asked, want, log
                ));
            }
            ctx.hit("failing writers");
        }
    }
}
