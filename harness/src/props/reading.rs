//! C04–C09: what a document means.

use super::*;

pub fn key(e: &Entry, text: &str) -> u64 {
    hash(text.as_bytes()) ^ hash(e.name.as_bytes())
}

/// Reads a rendering of `doc`, which must come to what the reference says.
pub fn check(ctx: &mut Ctx, e: &Entry, doc: &Elem, expected: &Result<Val, Fault>, style: &Style, rng: &mut Rng, what: &str) {
    let text = xml::render(doc, style, rng);
    let got = read(e, &text);
    ctx.eval(key(e, &text));
    ctx.hit(&format!("{}: {}", what, if expected.is_ok() { "value" } else { "error" }));
    if let Some(m) = mismatch(expected, &got) {
        ctx.violation(format!("{}: {}; {}", what, m, show_case(e, &text)));
    } else {
        ctx.sample(|| format!("{}: {} => {}", what, show_case(e, &text), got.show()));
    }
}

pub fn gen_doc(d: &Desc, rng: &mut Rng) -> Elem {
    let o = GenOpts::random(rng);
    Gen { rng, o }.doc(d)
}

/// All names claimed anywhere below `d`: (elements, attributes).
pub fn all_names(d: &Desc) -> (Vec<(String, String)>, Vec<(String, String)>) {
    let (mut es, mut ats) = (vec![(d.root.0.to_owned(), d.root.1.to_owned())], Vec::new());
    let mut all = Vec::new();
    reach(d, &mut all);
    for d in all {
        match &d.kind {
            Kind::Struct(fs) => {
                for f in fs {
                    let n = (f.ns.to_owned(), f.local.to_owned());
                    match f.mode {
                        Mode::Elem => es.push(n),
                        Mode::Attr => ats.push(n),
                        _ => {}
                    }
                }
            }
            Kind::Choice(vs) => es.extend(vs.iter().map(|v| (v.ns.to_owned(), v.local.to_owned()))),
        }
    }
    (es, ats)
}

const URLS: &[&str] = &["", "urn:a", "urn:b", "http://example.com/q?x=1&y=2", "urn:ü", "urn:A", "urn:a/", "urn:", "a", "http://example.org/", "http://example.org"];

fn other_local(l: &str, rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => format!("{}2", l),
        1 => format!("x{}", l),
        2 if l.chars().count() > 1 => {
            let n = l.chars().count();
            l.chars().take(n - 1).collect()
        }
        3 => l.to_uppercase(),
        4 => l.to_lowercase(),
        _ if rng.chance(30) => rng.name_word(),
        _ => (*rng.pick(&["a", "b", "x", "y", "item", "name", "type", "A", "B"])).to_owned(),
    }
}

/// A URL that isn't the same, though some would take it for the same.
fn near_url(u: &str, rng: &mut Rng) -> String {
    let chars: Vec<char> = u.chars().collect();
    let n = chars.len();
    match rng.below(12) {
        0 | 1 => match u.strip_suffix('/') {
            Some(s) => s.to_owned(),
            None => format!("{}/", u),
        },
        2 => match u.split_once('#') {
            Some((s, _)) => s.to_owned(),
            None => format!("{}#", u),
        },
        3 => match u.split_once('?') {
            Some((s, _)) => s.to_owned(),
            None => format!("{}?", u),
        },
        4 if u.starts_with("http:") => u.replacen("http:", "https:", 1),
        4 | 5 => {
            // One letter's case.
            let letters: Vec<usize> = (0..n).filter(|&i| chars[i].is_ascii_alphabetic()).collect();
            if letters.is_empty() {
                return format!("{}a", u);
            }
            let i = *rng.pick(&letters);
            let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            (0..n).map(|k| if k == i { flip(chars[k]) } else { chars[k] }).collect()
        }
        6 => u.to_uppercase(),
        7 => {
            let w = rng.word();
            if w.chars().any(|c| (c as u32) < 0x20) || w.is_empty() {
                format!("{}.", u)
            } else if rng.chance(50) {
                format!("{}{}", u, w)
            } else if rng.chance(50) {
                format!("{}{}", w, u)
            } else {
                w
            }
        }
        8 if u.contains('/') => u.replacen("//", "//www.", 1) + "/",
        8 | 9 if n > 1 => {
            let i = rng.below(n);
            (0..n).filter(|&k| k != i).map(|k| chars[k]).collect()
        }
        10 => format!(" {}", u),
        11 => format!("{} ", u),
        _ => format!("{}%20", u),
    }
}

fn swap_name(ns: &mut String, local: &mut String, attr: bool, rng: &mut Rng) {
    if rng.chance(25) && !ns.is_empty() && ns != xml::XML_NS {
        let u = near_url(ns, rng);
        if u != xml::XML_NS && u != xml::XMLNS_NS && u != "xmlns" && u != "xml" {
            // xml-rs takes those for the prefixes.
            *ns = u;
        }
    } else if rng.chance(60) {
        let mut n = (*rng.pick(URLS)).to_owned();
        if attr && rng.chance(10) {
            n = xml::XML_NS.to_owned();
        }
        *ns = n;
    } else {
        *local = other_local(local, rng);
    }
}

fn unique_attrs(e: &Elem) -> bool {
    e.attrs.iter().enumerate().all(|(i, a)| e.attrs[..i].iter().all(|b| (&a.ns, &a.local) != (&b.ns, &b.local)))
        && e.elems().all(unique_attrs)
}

fn safe_name(l: &str) -> bool {
    !l.is_empty() && !l.to_lowercase().starts_with("xml") && {
        let c = l.chars().next().unwrap();
        c.is_alphabetic() || c == '_'
    }
}

pub fn c04(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(80_000, 4_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let mut doc = gen_doc(d, &mut rng);
        let v = interp(d, &doc);
        // The same names under different prefixes.
        check(ctx, e, &doc, &v, &Style::plain(), &mut rng, "one prefix per namespace");
        for _ in 0..2 {
            check(ctx, e, &doc, &v, &Style { prefixes: true, ..Style::plain() }, &mut rng, "other prefixes");
        }
        check(ctx, e, &doc, &v, &Style::wild(), &mut rng, "other prefixes");
        // The root's name doesn't matter; other names do.
        let paths = doc.paths();
        for _ in 0..2 {
            let p = rng.pick(&paths).clone();
            let x = doc.at_mut(&p);
            if x.attrs.is_empty() || rng.chance(60) {
                let mut n = (x.ns.clone(), x.local.clone());
                swap_name(&mut n.0, &mut n.1, false, &mut rng);
                if safe_name(&n.1) {
                    (x.ns, x.local) = n;
                }
            } else {
                let i = rng.below(x.attrs.len());
                let mut n = (x.attrs[i].ns.clone(), x.attrs[i].local.clone());
                swap_name(&mut n.0, &mut n.1, true, &mut rng);
                if safe_name(&n.1) && x.attrs.iter().all(|a| (&a.ns, &a.local) != (&n.0, &n.1)) {
                    (x.attrs[i].ns, x.attrs[i].local) = n;
                }
            }
            debug_assert!(unique_attrs(&doc));
            let v = interp(d, &doc);
            check(ctx, e, &doc, &v, &Style { prefixes: true, ..Style::plain() }, &mut rng, "renamed");
        }
        // A near miss next to what's named.
        let p = rng.pick(&paths).clone();
        let x = doc.at_mut(&p);
        let kids: Vec<Elem> = x.elems().cloned().collect();
        if !kids.is_empty() {
            let mut k = rng.pick(&kids).clone();
            swap_name(&mut k.ns, &mut k.local, false, &mut rng);
            if safe_name(&k.local) {
                let at = rng.below(x.children.len() + 1);
                x.children.insert(at, Node::E(k));
                let v = interp(d, &doc);
                check(ctx, e, &doc, &v, &Style { prefixes: true, ..Style::plain() }, &mut rng, "near miss added");
            }
        }
    }
}

/// Attributes and elements that mean something elsewhere, or that the code under test mentions, but that nobody
/// here claims.
pub fn sprinkle(d: &Desc, doc: &mut Elem, rng: &mut Rng) {
    const XSI: &str = "http://www.w3.org/2001/XMLSchema-instance";
    let expected = interp(d, doc);
    let paths = doc.paths();
    for _ in 0..rng.range(1, 4) {
        let mut next = doc.clone();
        let p = rng.pick(&paths).clone();
        let x = next.at_mut(&p);
        let ns = match rng.below(6) {
            0 | 1 => "".to_owned(),
            2 => x.ns.clone(),
            3 => XSI.to_owned(),
            4 => xml::XML_NS.to_owned(),
            _ => (*rng.pick(URLS)).to_owned(),
        };
        let l = rng.name_word();
        if x.attrs.iter().any(|a| (&a.ns, &a.local) == (&ns, &l)) {
            continue;
        }
        let value = match rng.below(4) {
            0 => (*rng.pick(&["true", "1", "false", "0", "preserve", "default", "yes", "no", ""])).to_owned(),
            1 => rng.name_word(),
            2 => rng.word(),
            _ => "true".to_owned(),
        };
        if rng.chance(80) || ns == xml::XML_NS {
            x.attrs.insert(rng.below(x.attrs.len() + 1), xml::Attr { ns, local: l, value });
        } else {
            // At the end, so that paths stay as they are.
            let mut j = Elem::new(&ns, &l);
            j.children.push(Node::T(value));
            x.children.push(Node::E(j));
        }
        if same_outcome(&interp(d, &next), &expected) {
            *doc = next;
        }
    }
}

fn same_outcome(a: &Result<Val, Fault>, b: &Result<Val, Fault>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// An element nobody claims by its name, whose content is anything at all.
fn junk_elem(names: &[(String, String)], rng: &mut Rng, depth: usize, budget: &mut usize) -> Elem {
    let mut e = if rng.chance(60) {
        let n = rng.pick(names);
        Elem::new(&n.0, &n.1)
    } else {
        Elem::new(*rng.pick(URLS), *rng.pick(&["junk", "j", "a", "b", "x", "root"]))
    };
    if rng.chance(10) {
        e.local = rng.name_word();
    }
    if rng.below(300) == 0 && !cfg!(miri) {
        // A name longer than anyone would expect.
        let n = rng.size(9_000).unwrap_or(3_000);
        // (xml-rs takes no -- in names.)
        let c = *rng.pick(&['n', 'é', '中', '.', '7']);
        while e.local.len() < n {
            e.local.push(c);
        }
    }
    for _ in 0..rng.below(3) {
        let (ns, l) = (*rng.pick(URLS), *rng.pick(&["id", "x", "a", "k", "lang"]));
        if e.attrs.iter().all(|a| (a.ns.as_str(), a.local.as_str()) != (ns, l)) {
            let t = rng.xml_text(8);
            e.attr(ns, l, &t);
        }
    }
    let kids = if depth == 0 { 0 } else { rng.below(4) };
    for _ in 0..kids {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        match rng.below(4) {
            0 => {
                let t = rng.xml_text(10);
                e.children.push(Node::T(t));
            }
            1 => e.children.push(Node::Comment(" <a> & ".to_owned())),
            _ => {
                let k = junk_elem(names, rng, depth - 1, budget);
                e.children.push(Node::E(k));
            }
        }
    }
    e
}

pub fn c05(ctx: &mut Ctx) {
    let reg = registry();
    ctx.cases(60_000, 3_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let mut base = gen_doc(d, &mut rng);
        if rng.below(80) == 0 {
            if let Some(deep) = super::faults::deepen(d, &mut rng) {
                ctx.hit("deep");
                base = deep;
            }
        }
        let Ok(v) = interp(d, &base) else {
            ctx.hit("competing: no value");
            continue;
        };
        let expected = Ok(v);
        let (names, _) = all_names(d);
        let mut doc = base.clone();
        let mut added = 0;
        for _ in 0..rng.range(1, 12) {
            let mut next = doc.clone();
            let p = rng.pick(&doc.paths()).clone();
            let x = next.at_mut(&p);
            let at = rng.below(x.children.len() + 1);
            match rng.below(10) {
                0..=2 => {
                    let mut budget = 40;
                    let depth = rng.below(6);
                    let mut j = junk_elem(&names, &mut rng, depth, &mut budget);
                    if rng.chance(50) {
                        j.local = "unclaimed-element".to_owned();
                    }
                    x.children.insert(at, Node::E(j));
                }
                3 => {
                    // A copy of what's claimed, out of sight.
                    let mut j = Elem::new(*rng.pick(URLS), *rng.pick(&["wrapper", "x", "items"]));
                    j.children.push(Node::E(base.clone()));
                    j.children.extend(x.children.clone());
                    x.children.insert(at, Node::E(j));
                }
                4 => {
                    let t = rng.xml_text(10);
                    x.children.insert(at, Node::T(t));
                }
                5 | 6 if rng.chance(60) => {
                    for _ in 0..rng.range(1, 2) {
                        let n = xml::misc_words(&mut rng);
                        x.children.insert(at, n);
                    }
                }
                5 => x.children.insert(at, Node::Comment((*rng.pick(&["", " x ", "<a/>", "]]>", "&"])).to_owned())),
                6 => x.children.insert(at, Node::Pi("pi".to_owned(), (*rng.pick(&["", "data", "<a>", "a=\"b\""])).to_owned())),
                7 if rng.chance(20) => {
                    // Deep or wide.
                    let n = rng.size(600).unwrap_or(300);
                    let mut j = Elem::new("", "deep");
                    if rng.chance(50) {
                        for _ in 0..n {
                            let mut o = Elem::new("", &rng.pick(&names).1.clone());
                            o.children.push(Node::E(j));
                            j = o;
                        }
                        j.local = "deep".to_owned();
                    } else {
                        for _ in 0..n {
                            let m = rng.pick(&names).clone();
                            j.children.push(Node::E(Elem::new(&m.0, &m.1)));
                        }
                    }
                    x.children.insert(at, Node::E(j));
                }
                7 if rng.chance(25) => {
                    // Many attributes.
                    let n = rng.size(1300).unwrap_or(300);
                    let ns = *rng.pick(URLS);
                    let at = rng.below(x.attrs.len() + 1);
                    let more: Vec<_> = (0..n).map(|k| xml::Attr { ns: ns.to_owned(), local: format!("unclaimed{}", k), value: String::new() }).collect();
                    if x.attrs.iter().any(|a| a.ns == ns && a.local.starts_with("unclaimed")) {
                        continue;
                    }
                    x.attrs.splice(at..at, more);
                }
                _ => {
                    let (ns, l) = if rng.chance(50) {
                        let n = rng.pick(&names);
                        (n.0.clone(), n.1.clone())
                    } else {
                        ((*rng.pick(URLS)).to_owned(), (*rng.pick(&["junk", "id", "lang", "a", "x", "type"])).to_owned())
                    };
                    if x.attrs.iter().all(|a| (&a.ns, &a.local) != (&ns, &l)) {
                        let t = rng.xml_text(8);
                        x.attrs.insert(rng.below(x.attrs.len() + 1), xml::Attr { ns, local: l, value: t });
                    }
                }
            }
            // Only what isn't claimed.
            if interp(d, &next) == expected {
                doc = next;
                added += 1;
            }
        }
        ctx.add("unclaimed items added", added);
        if rng.chance(60) {
            sprinkle(d, &mut doc, &mut rng);
        }
        check(ctx, e, &doc, &expected, &Style::random(&mut rng), &mut rng, "with unclaimed content");
        // Other order among different names.
        let mut next = base.clone();
        for p in base.paths().into_iter().rev() {
            reorder(next.at_mut(&p), &mut rng);
        }
        if interp(d, &next) == expected {
            check(ctx, e, &next, &expected, &Style::random(&mut rng), &mut rng, "reordered");
        }
    }
}

/// Shuffles children, but not those of the same name among themselves.
fn reorder(e: &mut Elem, rng: &mut Rng) {
    let mut slots: Vec<usize> = (0..e.children.len()).collect();
    rng.shuffle(&mut slots);
    let name = |n: &Node| match n {
        Node::E(e) => format!("{{{}}}{}", e.ns, e.local),
        _ => String::new(),
    };
    let old = std::mem::take(&mut e.children);
    let mut order: Vec<usize> = slots;
    // Within a name, put the indexes back into ascending order.
    let names: Vec<String> = old.iter().map(name).collect();
    let mut i = 0;
    while i < order.len() {
        let same: Vec<usize> = (0..order.len()).filter(|k| names[order[*k]] == names[order[i]]).collect();
        let mut idx: Vec<usize> = same.iter().map(|k| order[*k]).collect();
        idx.sort();
        for (k, v) in same.iter().zip(idx) {
            order[*k] = v;
        }
        i += 1;
    }
    let mut old: Vec<Option<Node>> = old.into_iter().map(Some).collect();
    e.children = order.into_iter().map(|k| old[k].take().unwrap()).collect();
    rng.shuffle(&mut e.attrs);
}

/// A field of a struct, or of one flattened into it.
#[derive(Clone, Copy)]
pub struct Slot {
    pub entry: usize,
    pub field: &'static Field,
}

fn slots_of(d: &'static Desc, entry: usize, out: &mut Vec<Slot>) {
    if let Kind::Struct(fs) = &d.kind {
        for (k, f) in fs.iter().enumerate() {
            match (f.mode, &f.ty) {
                (Mode::Flatten, Ty::Node(n)) => slots_of(n(), entry, out),
                (Mode::Text, _) => {}
                // One of thirty will do.
                _ if fs.len() > 200 && k % 30 != 0 => {}
                _ => out.push(Slot { entry, field: f }),
            }
        }
    }
}

pub fn slots(reg: &[Entry]) -> Vec<Slot> {
    let mut out = Vec::new();
    for (i, e) in reg.iter().enumerate() {
        if !(e.desc)().competing {
            slots_of((e.desc)(), i, &mut out);
        }
    }
    out
}

pub fn c06(ctx: &mut Ctx) {
    let reg = registry();
    let slots = slots(&reg);
    ctx.add("fields", slots.len() as u64);
    let rounds = |n: u64| n * 5 * slots.len() as u64;
    ctx.cases(rounds(120), rounds(6000));
    while let Some((case, mut rng)) = ctx.next_case() {
        let s = slots[(case % slots.len() as u64) as usize];
        let count = ((case / slots.len() as u64) % 5) as usize;
        let (e, f) = (&reg[s.entry], s.field);
        let d = (e.desc)();
        let mut whole = gen_doc(d, &mut rng);
        let mut path = Vec::new();
        let (mut host, mut host_d) = (e, d);
        let found;
        if rng.chance(22) {
            if let Some(x) = super::faults::embed(&reg, d, &mut rng) {
                found = x.0;
                (host, host_d, whole, path) = (&found, (found.desc)(), x.1, x.2);
                ctx.hit("in an element below the root");
            }
        }
        let doc = whole.at_mut(&path);
        let ok;
        let what;
        if f.mode == Mode::Attr {
            let Ty::Leaf(l) = &f.ty else { unreachable!() };
            let count = count.min(2);
            doc.attrs.retain(|a| (a.ns.as_str(), a.local.as_str()) != (f.ns, f.local));
            for _ in 0..count {
                let t = gen_leaf_text(l, &mut rng, 10);
                let at = rng.below(doc.attrs.len() + 1);
                doc.attrs.insert(at, xml::Attr { ns: f.ns.to_owned(), local: f.local.to_owned(), value: t });
            }
            ok = match count {
                0 => f.card != Card::One || f.default.is_some(),
                1 => true,
                _ => false,
            };
            what = format!("attribute {:?}{} x{}", f.card, if f.default.is_some() { " default" } else { "" }, count);
        } else {
            doc.children.retain(|c| !matches!(c, Node::E(x) if (x.ns.as_str(), x.local.as_str()) == (f.ns, f.local)));
            for i in 0..count {
                let c = Gen { rng: &mut rng, o: GenOpts { presence: 30, max_many: 2, max_depth: 2, text: 8, shuffle: true, budget: 10 } }
                    .ty_elem(f.ns, f.local, &f.ty, 0);
                let at = rng.below(doc.children.len() + 1);
                if i == 0 && f.card == Card::Many && c.children.len() < 3 && !cfg!(miri) && rng.below(1000) < 4 {
                    // Very many.
                    let n = rng.size(70_000).unwrap_or(20_000);
                    if n > 1000 {
                        ctx.hit("more than 1000 occurrences");
                    }
                    doc.children.splice(at..at, std::iter::repeat(Node::E(c.clone())).take(n));
                }
                doc.children.insert(at, Node::E(c));
            }
            ok = match (f.card, count) {
                (Card::Many | Card::First | Card::Last, _) => true,
                (Card::Opt, 0) => true,
                (Card::One, 0) => f.default.is_some(),
                (_, 1) => true,
                _ => false,
            };
            what = format!("element {:?}{} x{}", f.card, if f.default.is_some() { " default" } else { "" }, count);
        }
        // Unclaimed content in between.
        if rng.chance(40) {
            let at = rng.below(doc.children.len() + 1);
            doc.children.insert(at, Node::E(Elem::new("urn:unclaimed", f.local)));
        }
        let (e, d, mut doc) = (host, host_d, whole);
        if rng.chance(40) {
            sprinkle(d, &mut doc, &mut rng);
        }
        let expected = interp(d, &doc);
        let nested_ok = expected.is_ok();
        if ok != nested_ok {
            // The reference and the rule for this field must agree, unless a nested type competes.
            if any_competing(d) {
                ctx.hit("competing below");
            } else {
                panic!("reference disagrees with the rule: {} {} {:?}\n{}", e.name, what, expected, doc.show());
            }
        }
        check(ctx, e, &doc, &expected, &Style::random(&mut rng), &mut rng, &what);
    }
}

pub fn any_competing(d: &Desc) -> bool {
    super::roundtrip::any_competing(d)
}

/// Everything an element of this type may contain by name: (ns, local, type), in flattening order.
pub fn claims(d: &'static Desc, out: &mut Vec<(&'static str, &'static str, Option<&'static Ty>)>) {
    match &d.kind {
        Kind::Struct(fs) => {
            for f in fs {
                match (f.mode, &f.ty) {
                    (Mode::Flatten, Ty::Node(n)) => claims(n(), out),
                    (Mode::Elem, _) => out.push((f.ns, f.local, Some(&f.ty))),
                    _ => {}
                }
            }
        }
        Kind::Choice(vs) => {
            for v in vs {
                if !v.skip || v.ty.is_none() {
                    out.push((v.ns, v.local, v.ty.as_ref()));
                }
            }
        }
    }
}

pub fn attr_claims(d: &'static Desc, out: &mut Vec<(&'static str, &'static str, &'static Leaf)>) {
    if let Kind::Struct(fs) = &d.kind {
        for f in fs {
            match (f.mode, &f.ty) {
                (Mode::Flatten, Ty::Node(n)) => attr_claims(n(), out),
                (Mode::Attr, Ty::Leaf(l)) => out.push((f.ns, f.local, l)),
                _ => {}
            }
        }
    }
}

fn has_flatten(d: &Desc) -> bool {
    matches!(&d.kind, Kind::Struct(fs) if fs.iter().any(|f| f.mode == Mode::Flatten))
}

pub fn claim_elem(c: &(&'static str, &'static str, Option<&'static Ty>), rng: &mut Rng) -> Elem {
    match c.2 {
        None => Elem::new(c.0, c.1),
        Some(t) => Gen { rng, o: GenOpts { presence: 30, max_many: 2, max_depth: 2, text: 8, shuffle: true, budget: 10 } }
            .ty_elem(c.0, c.1, t, 1),
    }
}

pub fn c07(ctx: &mut Ctx) {
    let reg: Vec<Entry> = registry().into_iter().filter(|e| has_flatten((e.desc)())).collect();
    ctx.add("types", reg.len() as u64);
    ctx.cases(80_000, 5_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let mut doc = gen_doc(d, &mut rng);
        // More of what some flattened field or the struct itself may take.
        let mut cl = Vec::new();
        claims(d, &mut cl);
        let mut acl = Vec::new();
        attr_claims(d, &mut acl);
        for _ in 0..rng.below(5) {
            if cl.is_empty() {
                break;
            }
            let mut next = doc.clone();
            if rng.chance(25) && !acl.is_empty() {
                let (ns, local, l) = *rng.pick(&acl);
                if doc.attrs.iter().all(|a| (a.ns.as_str(), a.local.as_str()) != (ns, local)) {
                    let t = gen_leaf_text(l, &mut rng, 8);
                    next.attrs.insert(rng.below(doc.attrs.len() + 1), xml::Attr { ns: ns.to_owned(), local: local.to_owned(), value: t });
                }
            } else {
                let x = claim_elem(rng.pick(&cl), &mut rng);
                next.children.insert(rng.below(doc.children.len() + 1), Node::E(x));
            }
            // Mostly what leads to a value.
            if interp(d, &next).is_ok() || rng.chance(15) {
                doc = next;
            }
        }
        if rng.chance(30) {
            rng.shuffle(&mut doc.children);
        }
        if rng.chance(30) {
            let mut budget = 8;
            let j = junk_elem(&[("urn:unclaimed".to_owned(), "x".to_owned())], &mut rng, 2, &mut budget);
            doc.children.insert(rng.below(doc.children.len() + 1), Node::E(j));
        }
        if rng.chance(20) {
            sprinkle(d, &mut doc, &mut rng);
        }
        let expected = interp(d, &doc);
        let style = if rng.chance(50) { Style::plain() } else { Style::random(&mut rng) };
        check(ctx, e, &doc, &expected, &style, &mut rng, if d.competing { "competing" } else { "flattened" });
        // And back.
        if let Ok(v) = expected {
            super::writing::check_output(ctx, e, &v, "serialized");
        }
    }
}

fn choices(reg: &[Entry]) -> Vec<Entry> {
    reg.iter().copied().filter(|e| matches!((e.desc)().kind, Kind::Choice(_))).collect()
}

pub fn c08(ctx: &mut Ctx) {
    let all = registry();
    let reg = choices(&all);
    // Structs which do little more than flatten one choice.
    let wrappers: Vec<Entry> = all
        .iter()
        .copied()
        .filter(|e| match &(e.desc)().kind {
            Kind::Struct(fs) => {
                fs.iter().any(|f| f.mode == Mode::Flatten && matches!(&f.ty, Ty::Node(n) if matches!(n().kind, Kind::Choice(_))))
            }
            _ => false,
        })
        .collect();
    ctx.add("types", reg.len() as u64);
    ctx.cases(120_000, 6_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Kind::Choice(vs) = &d.kind else { unreachable!() };
        // A short history of children.
        let mut doc = Elem::new(d.root.0, d.root.1);
        let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 4, 6]);
        let favourite = rng.below(vs.len());
        let mut rule: Result<Option<usize>, ()> = Ok(None);
        let mut seen = 0;
        for _ in 0..n {
            let r = rng.below(100);
            if r < 15 {
                let mut budget = 5;
                let j = junk_elem(&[("urn:unclaimed".to_owned(), vs[favourite].local.to_owned())], &mut rng, 2, &mut budget);
                if vs.iter().all(|v| (v.ns, v.local) != (j.ns.as_str(), j.local.as_str())) {
                    doc.children.push(Node::E(j));
                }
                continue;
            }
            if r < 22 {
                doc.children.push(Node::T(rng.xml_text(5)));
                continue;
            }
            let i = if rng.chance(65) { favourite } else { rng.below(vs.len()) };
            let v = &vs[i];
            if v.skip && vs.iter().any(|o| !o.skip && (o.ns, o.local) == (v.ns, v.local)) {
                continue;
            }
            let x = claim_elem(&(v.ns, v.local, if v.skip { None } else { v.ty.as_ref() }), &mut rng);
            doc.children.push(Node::E(x));
            if v.skip {
                ctx.hit("skipped alternative's element present");
                continue;
            }
            rule = match rule {
                Ok(None) => Ok(Some(i)),
                Ok(Some(j)) if i != j => Err(()),
                Ok(Some(j)) if v.ty.is_some() && !matches!(v.card, Card::Many | Card::First | Card::Last) => {
                    let _ = j;
                    Err(())
                }
                r => r,
            };
            seen += 1;
        }
        if rng.chance(15) {
            sprinkle(d, &mut doc, &mut rng);
        }
        let expected = interp(d, &doc);
        // The rule as written in the property, besides the reference.
        let by_rule = match rule {
            Err(()) | Ok(None) => None,
            Ok(Some(i)) => Some(i),
        };
        match (&expected, by_rule) {
            (Ok(Val::Choice(i, _)), Some(j)) if *i == j => {}
            (Err(_), None) => {}
            _ if any_competing(d) => {}
            x => panic!("reference disagrees with the rule: {:?} {}", x, doc.show()),
        }
        check(ctx, e, &doc, &expected, &Style::random(&mut rng), &mut rng, &format!("{} alternatives", seen.min(4)));
        // The same history further down.
        if rng.chance(40) {
            if let Some((host, mut whole, path)) = super::faults::embed(&all, d, &mut rng) {
                let hd = (host.desc)();
                let x = whole.at_mut(&path);
                x.attrs.clear();
                x.children = doc.children.clone();
                let expected = interp(hd, &whole);
                if expected.is_ok() != by_rule.is_some() {
                    panic!("reference disagrees with the rule below: {:?} {}", by_rule, whole.show());
                }
                check(ctx, &host, &whole, &expected, &Style::random(&mut rng), &mut rng, "below the root");
            }
        }
        // Within a struct that flattens it, or as a nested element.
        let w = rng.pick(&wrappers);
        let wd = (w.desc)();
        let mut wdoc = gen_doc(wd, &mut rng);
        for _ in 0..rng.below(3) {
            let mut cl = Vec::new();
            claims(wd, &mut cl);
            let x = claim_elem(rng.pick(&cl), &mut rng);
            wdoc.children.insert(rng.below(wdoc.children.len() + 1), Node::E(x));
        }
        check(ctx, w, &wdoc, &interp(wd, &wdoc), &Style::random(&mut rng), &mut rng, "flattened");
        // Serialization writes exactly the elements of the alternative.
        if let Ok(v) = &expected {
            super::writing::check_output(ctx, e, v, "serialized");
        }
        let skipped: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].skip).collect();
        if !skipped.is_empty() {
            let i = *rng.pick(&skipped);
            let payload = match &vs[i].ty {
                None => None,
                Some(Ty::Leaf(l)) => {
                    let t = gen_leaf_text(l, &mut rng, 8);
                    Some(Box::new(Val::Leaf(parse_leaf(l, &t).unwrap())))
                }
                Some(Ty::Node(n)) => match gen_val(n(), &mut rng) {
                    Some(v) => Some(Box::new(v)),
                    None => continue,
                },
            };
            let v = Val::Choice(i, payload);
            for o in Opts::ALL {
                match guard(|| (e.write_string)(&v, Some(o))) {
                    Ok(Err(_)) => {}
                    r => ctx.violation(format!("{}: skipped alternative {} serialized: {:?}", e.name, vs[i].name, r)),
                }
                ctx.eval(hash(format!("{:?} {:?}", v, o).as_bytes()));
            }
            ctx.hit("skipped alternative refused");
        }
    }
}

fn has_text(d: &Desc) -> bool {
    match &d.kind {
        Kind::Struct(fs) => fs.iter().any(|f| match (f.mode, &f.ty) {
            (Mode::Text, _) => true,
            (Mode::Flatten, Ty::Node(n)) => has_text(n()),
            _ => false,
        }),
        _ => false,
    }
}

/// Cuts text into several nodes, with things in between which don't count.
fn scatter(e: &mut Elem, elements: bool, rng: &mut Rng) {
    let mut out = Vec::new();
    let filler = |rng: &mut Rng| -> Node {
        match rng.below(if elements { 3 } else { 2 }) {
            0 => Node::Comment((*rng.pick(&["", " text ", "<x>", "]]>"])).to_owned()),
            1 => Node::Pi("p".to_owned(), (*rng.pick(&["", "x", "<y>"])).to_owned()),
            _ => {
                let mut j = Elem::new("urn:unclaimed", "x");
                j.children.push(Node::T("not this".to_owned()));
                Node::E(j)
            }
        }
    };
    for c in std::mem::take(&mut e.children) {
        match c {
            Node::T(t) => {
                let chars: Vec<char> = t.chars().collect();
                let mut i = 0;
                while i < chars.len() {
                    let k = rng.range(1, (chars.len() - i).min(8));
                    out.push(Node::T(chars[i..i + k].iter().collect()));
                    i += k;
                    if rng.chance(60) {
                        let f = filler(rng);
                        out.push(f);
                    }
                }
            }
            o => out.push(o),
        }
    }
    if rng.chance(30) {
        let f = filler(rng);
        out.insert(0, f);
    }
    e.children = out;
}

pub fn c09(ctx: &mut Ctx) {
    let all = registry();
    let texty: Vec<Entry> = all.iter().copied().filter(|e| has_text((e.desc)())).collect();
    let leafs = crate::types::leaf_registry();
    let strings: Vec<&LeafEntry> = leafs.iter().filter(|l| matches!(l.leaf, Leaf::String)).collect();
    ctx.add("types with text fields", texty.len() as u64);
    ctx.cases(70_000, 4_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        // A text type as the root: verbatim for strings, parsed for others.
        let l = if rng.chance(50) { *rng.pick(&strings) } else { rng.pick(&leafs) };
        let t = if rng.chance(30) {
            rng.xml_text(60)
        } else {
            gen_leaf_text(&l.leaf, &mut rng, 40)
        };
        let mut root = Elem::new("", "r");
        root.children.push(Node::T(t.clone()));
        scatter(&mut root, false, &mut rng);
        let style = Style::random(&mut rng);
        let text = xml::render(&root, &style, &mut rng);
        let want = parse_leaf(&l.leaf, &t);
        let got = guard(|| (l.read)(&mut text.as_bytes()));
        ctx.eval(hash(text.as_bytes()));
        ctx.hit(if t.chars().all(is_ws) { "only white space" } else { "text type" });
        match (&want, &got) {
            (Ok(w), Ok(Ok(g))) if w == g => {}
            (Err(_), Ok(Err(_))) => {}
            _ => ctx.violation(format!("{} from {:?}: expected {:?}, got {:?}", l.name, text, want, got)),
        }
        // A child element isn't text.
        let mut bad = root.clone();
        let k = if rng.chance(50) { Elem::new("", "r") } else { claim_elem(&("urn:x", "b", None), &mut rng) };
        bad.children.insert(rng.below(bad.children.len() + 1), Node::E(k));
        let text = xml::render(&bad, &style, &mut rng);
        ctx.eval(hash(text.as_bytes()));
        ctx.hit("child element in text");
        match guard(|| (l.read)(&mut text.as_bytes())) {
            Ok(Err(_)) => {}
            r => ctx.violation(format!("{} from {:?}: expected an error, got {:?}", l.name, text, r)),
        }
        // Text fields of structs and text elements anywhere below.
        let e = if rng.chance(65) { rng.pick(&texty) } else { pick(&all, case, &mut rng) };
        let d = (e.desc)();
        let mut doc = gen_doc(d, &mut rng);
        let paths = doc.paths();
        for p in paths.iter().rev() {
            let with_elems = {
                let mut probe = doc.clone();
                let before = interp(d, &probe);
                probe.at_mut(p).children.push(Node::E(Elem::new("urn:unclaimed", "x")));
                before.is_ok() && interp(d, &probe) == before
            };
            let x = doc.at_mut(p);
            if x.elems().next().is_none() || with_elems {
                // Additional text where any is text.
                if with_elems && rng.chance(50) {
                    let n = rng.below(4);
                    for _ in 0..n {
                        let t = rng.xml_text(12);
                        x.children.insert(rng.below(x.children.len() + 1), Node::T(t));
                    }
                }
            }
            if rng.chance(70) {
                scatter(x, with_elems, &mut rng);
            }
        }
        let expected = interp(d, &doc);
        check(ctx, e, &doc, &expected, &Style::random(&mut rng), &mut rng, "fields");
        // Verbatim: the same text in one piece gives the same.
        let joined = joined(&doc);
        check(ctx, e, &joined, &expected, &Style::plain(), &mut rng, "in one piece");
    }
}

/// All text of each element in one piece at the start.
fn joined(e: &Elem) -> Elem {
    let mut o = Elem { children: Vec::new(), ..e.clone() };
    let t = e.text_of();
    if !t.is_empty() {
        o.children.push(Node::T(t));
    }
    for c in e.elems() {
        o.children.push(Node::E(joined(c)));
    }
    o
}
