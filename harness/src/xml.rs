//! Document trees, a randomized renderer, and a strict parser.
//!
//! None of this shares code with static-xml or xml-rs.

use crate::rng::Rng;
use std::collections::HashMap;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attr {
    pub ns: String,
    pub local: String,
    pub value: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem {
    pub ns: String,
    pub local: String,
    pub attrs: Vec<Attr>,
    pub children: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    E(Elem),
    T(String),
    Comment(String),
    Pi(String, String),
}

impl Elem {
    pub fn new(ns: &str, local: &str) -> Self {
        Elem { ns: ns.to_owned(), local: local.to_owned(), attrs: Vec::new(), children: Vec::new() }
    }
    pub fn attr(&mut self, ns: &str, local: &str, value: &str) {
        self.attrs.push(Attr { ns: ns.to_owned(), local: local.to_owned(), value: value.to_owned() });
    }
    pub fn text_of(&self) -> String {
        self.children.iter().map(|c| if let Node::T(t) = c { t.as_str() } else { "" }).collect()
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.children.iter().filter_map(|c| if let Node::E(e) = c { Some(e) } else { None })
    }
    pub fn count(&self) -> usize {
        1 + self.elems().map(|e| e.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.elems().map(|e| e.depth()).max().unwrap_or(0)
    }
    /// Element at the given path of child-element indexes.
    pub fn at(&self, path: &[usize]) -> &Elem {
        match path.split_first() {
            None => self,
            Some((i, rest)) => self.elems().nth(*i).unwrap().at(rest),
        }
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut Elem {
        match path.split_first() {
            None => self,
            Some((i, rest)) => self
                .children
                .iter_mut()
                .filter_map(|c| if let Node::E(e) = c { Some(e) } else { None })
                .nth(*i)
                .unwrap()
                .at_mut(rest),
        }
    }
    /// All paths to elements, the root's (empty) one included, in document order.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]];
        for (i, e) in self.elems().enumerate() {
            for mut p in e.paths() {
                p.insert(0, i);
                out.push(p);
            }
        }
        out
    }
    /// Merges adjacent text, drops empty text, comments and processing instructions.
    pub fn normalized(&self) -> Elem {
        let mut e = Elem { ns: self.ns.clone(), local: self.local.clone(), attrs: self.attrs.clone(), children: vec![] };
        for c in &self.children {
            match c {
                Node::E(x) => e.children.push(Node::E(x.normalized())),
                Node::T(t) if t.is_empty() => {}
                Node::T(t) => {
                    if let Some(Node::T(prev)) = e.children.last_mut() {
                        prev.push_str(t);
                    } else {
                        e.children.push(Node::T(t.clone()));
                    }
                }
                _ => {}
            }
        }
        e
    }
    /// Canonical form for messages and comparisons.
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.show_to(&mut o, 0);
        o
    }
    fn show_to(&self, o: &mut String, d: usize) {
        use std::fmt::Write;
        let _ = write!(o, "{:w$}{{{}}}{}", "", self.ns, self.local, w = d);
        for a in &self.attrs {
            let _ = write!(o, " {{{}}}{}={:?}", a.ns, a.local, a.value);
        }
        o.push('\n');
        for c in &self.children {
            match c {
                Node::E(e) => e.show_to(o, d + 1),
                Node::T(t) => {
                    let _ = writeln!(o, "{:w$}{:?}", "", t, w = d + 1);
                }
                Node::Comment(t) => {
                    let _ = writeln!(o, "{:w$}<!--{:?}-->", "", t, w = d + 1);
                }
                Node::Pi(t, v) => {
                    let _ = writeln!(o, "{:w$}<?{} {:?}?>", "", t, v, w = d + 1);
                }
            }
        }
    }
}

/// A comment or processing instruction made of what the code under test mentions.
pub fn misc_words(rng: &mut Rng) -> Node {
    // xml-rs takes some markup for itself even here, such as the end of `<?a <?>`.
    let plain = |s: &str, not: &str| !s.contains(not) && s.chars().all(|c| is_xml_char(c) && c != '\r' && c != '<');
    if rng.chance(40) {
        let mut t = if rng.chance(50) { rng.word() } else { rng.name_word() };
        if rng.chance(50) {
            t = format!(" {} ", t);
        }
        if plain(&t, "--") && !t.starts_with('-') && !t.ends_with('-') {
            return Node::Comment(t);
        }
    }
    let target = rng.name_word();
    let mut data = match rng.below(5) {
        0 => String::new(),
        1 => rng.name_word(),
        2 => (*rng.pick(&["on", "off", "begin", "end", "true", "ignore", "a=\"b\""])).to_owned(),
        3 => format!("{}=\"{}\"", rng.name_word(), rng.name_word()),
        _ => rng.word(),
    };
    if !plain(&data, "?") {
        data.clear();
    }
    Node::Pi(target, data)
}

/// How to render.
#[derive(Clone)]
pub struct Style {
    /// Invent prefixes rather than using the same simple scheme everywhere.
    pub prefixes: bool,
    /// Split text into plain text, references, CDATA sections, comments...
    pub split: bool,
    /// Comments and processing instructions in element content.
    pub misc: bool,
    /// White space variations in markup, prolog variations.
    pub markup: bool,
    /// DOCTYPE.
    pub doctype: bool,
}

impl Style {
    pub fn plain() -> Self {
        Style { prefixes: false, split: false, misc: false, markup: false, doctype: false }
    }
    pub fn random(rng: &mut Rng) -> Self {
        match rng.below(4) {
            0 => Style::wild(),
            1 => Style { prefixes: true, ..Style::plain() },
            _ => Style {
                prefixes: rng.chance(60),
                split: rng.chance(50),
                misc: rng.chance(50),
                markup: rng.chance(50),
                doctype: rng.chance(30),
            },
        }
    }
    pub fn wild() -> Self {
        Style { prefixes: true, split: true, misc: true, markup: true, doctype: true }
    }
}

const PREFIXES: &[&str] =
    &["a", "b", "p", "q", "foo", "ns1", "p-é", "x-y", "a.b", "_", "t", "i", "z", "y", "zz", "foo2"];

struct Renderer<'a> {
    rng: &'a mut Rng,
    style: Style,
    out: String,
    /// Bindings in scope, innermost last.
    scope: Vec<(String, String)>,
}

impl<'a> Renderer<'a> {
    fn lookup(&self, prefix: &str) -> Option<&str> {
        self.scope.iter().rev().find(|(p, _)| p == prefix).map(|(_, u)| u.as_str())
    }

    /// Prefixes currently bound to `url`.
    fn bound(&self, url: &str) -> Vec<String> {
        let mut seen: Vec<&str> = Vec::new();
        let mut out = Vec::new();
        for (p, u) in self.scope.iter().rev() {
            if seen.contains(&p.as_str()) {
                continue;
            }
            seen.push(p);
            if u == url {
                out.push(p.clone());
            }
        }
        out
    }

    fn ws(&mut self) -> &'static str {
        if self.style.markup && self.rng.chance(15) {
            *self.rng.pick(&["  ", "\n", "\t ", "\r\n"])
        } else {
            " "
        }
    }

    fn opt_ws(&mut self) -> &'static str {
        if self.style.markup && self.rng.chance(10) {
            *self.rng.pick(&[" ", "\n", "\t"])
        } else {
            ""
        }
    }

    fn char_ref(&mut self, c: char) -> String {
        let n = c as u32;
        match self.rng.below(4) {
            0 => format!("&#{};", n),
            1 => format!("&#x{:x};", n),
            2 => format!("&#x{:X};", n),
            _ => format!("&#x0{:X};", n),
        }
    }

    fn entity(&mut self, c: char) -> String {
        let named = match c {
            '<' => "&lt;",
            '>' => "&gt;",
            '&' => "&amp;",
            '"' => "&quot;",
            '\'' => "&apos;",
            _ => "",
        };
        if named.is_empty() || (self.style.split && self.rng.chance(30)) {
            self.char_ref(c)
        } else {
            named.to_owned()
        }
    }

    fn attr_value(&mut self, v: &str) -> String {
        let q = if self.style.markup && self.rng.chance(40) { '\'' } else { '"' };
        let mut o = String::new();
        o.push(q);
        for c in v.chars() {
            let must = matches!(c, '<' | '&' | '\t' | '\n' | '\r') || c == q;
            if must || (self.style.split && (c == '>' || self.rng.chance(4))) {
                let e = self.entity(c);
                o.push_str(&e);
            } else {
                o.push(c);
            }
        }
        o.push(q);
        o
    }

    fn plain(&mut self, t: &str) {
        let mut brackets = self.out.bytes().rev().take_while(|b| *b == b']').count();
        for c in t.chars() {
            let must = matches!(c, '<' | '&' | '\r') || (c == '>' && brackets >= 2);
            if must || (self.style.split && self.rng.chance(4)) {
                let e = self.entity(c);
                self.out.push_str(&e);
                brackets = 0;
            } else {
                self.out.push(c);
                brackets = if c == ']' { brackets + 1 } else { 0 };
            }
        }
    }

    fn misc(&mut self) {
        if self.rng.chance(30) {
            let n = misc_words(self.rng);
            self.misc_node(&n);
        } else if self.rng.chance(50) {
            let c = *self.rng.pick(&["", " c ", "<x>", "&amp;", "]]>", "<![CDATA[", " - - ", "é \u{1f600}", "a=\"b\"", "?>"]);
            self.out.push_str("<!--");
            self.out.push_str(c);
            self.out.push_str("-->");
        } else {
            let c = *self.rng.pick(&["<?pi?>", "<?pi  some data ?>", "<?a-b <x> & ]]> ?>", "<?p é?>", "<?target \"q'?>"]);
            self.out.push_str(c);
        }
    }

    fn misc_node(&mut self, n: &Node) {
        match n {
            Node::Comment(t) => {
                self.out.push_str("<!--");
                self.out.push_str(t);
                self.out.push_str("-->");
            }
            Node::Pi(t, d) => {
                self.out.push_str("<?");
                self.out.push_str(t);
                if !d.is_empty() {
                    self.out.push(' ');
                    self.out.push_str(d);
                }
                self.out.push_str("?>");
            }
            _ => unreachable!(),
        }
    }

    fn text(&mut self, t: &str) {
        if !self.style.split {
            self.plain(t);
            return;
        }
        let mut rest = t;
        // An empty CDATA section or a comment doesn't add to the text.
        if rest.is_empty() && self.rng.chance(20) {
            self.out.push_str("<![CDATA[]]>");
        }
        while !rest.is_empty() {
            let n = rest.chars().count();
            let k = if self.rng.chance(40) { n } else { self.rng.range(1, n.min(6)) };
            let cut = rest.char_indices().nth(k).map_or(rest.len(), |(i, _)| i);
            let (piece, r) = rest.split_at(cut);
            rest = r;
            match self.rng.below(10) {
                0..=3 if !piece.contains('\r') && !piece.contains("]]>") => {
                    self.out.push_str("<![CDATA[");
                    self.out.push_str(piece);
                    self.out.push_str("]]>");
                }
                4 => {
                    for c in piece.chars() {
                        let r = self.char_ref(c);
                        self.out.push_str(&r);
                    }
                }
                _ => self.plain(piece),
            }
            if self.style.misc && self.rng.chance(15) {
                self.misc();
            }
        }
    }

    fn elem(&mut self, e: &Elem, fill: bool) {
        let mark = self.scope.len();
        let mut decls: Vec<(String, String)> = Vec::new();
        let mut used: Vec<String> = Vec::new();
        // Declarations nobody needs.
        if self.style.prefixes && self.rng.chance(25) {
            for _ in 0..self.rng.range(1, 3) {
                let p = (*self.rng.pick(PREFIXES)).to_owned();
                let u = (*self.rng.pick(&["urn:a", "urn:b", "urn:unused", "http://example.com/q?x=1&y=2", "urn:ü"])).to_owned();
                if decls.iter().all(|(q, _)| *q != p) {
                    decls.push((p.clone(), u.clone()));
                    self.scope.push((p, u));
                }
            }
            if self.rng.chance(30) && decls.iter().all(|(q, _)| !q.is_empty()) && !e.ns.is_empty() {
                let u = (*self.rng.pick(&["urn:a", "urn:b", "urn:unused", ""])).to_owned();
                decls.push((String::new(), u.clone()));
                self.scope.push((String::new(), u));
            }
        }
        let ename = if e.ns.is_empty() {
            if self.lookup("").map_or(false, |u| !u.is_empty()) {
                decls.push((String::new(), String::new()));
                self.scope.push((String::new(), String::new()));
            }
            used.push(String::new());
            e.local.clone()
        } else if e.ns == XML_NS {
            format!("xml:{}", e.local)
        } else {
            let p = self.prefix_for(&e.ns, true, &mut decls, &mut used);
            if p.is_empty() { e.local.clone() } else { format!("{}:{}", p, e.local) }
        };
        let mut attrs: Vec<(String, String)> = Vec::new();
        for a in &e.attrs {
            let n = if a.ns.is_empty() {
                a.local.clone()
            } else if a.ns == XML_NS {
                format!("xml:{}", a.local)
            } else {
                let p = self.prefix_for(&a.ns, false, &mut decls, &mut used);
                format!("{}:{}", p, a.local)
            };
            attrs.push((n, a.value.clone()));
        }
        // Declarations may come before, after or between attributes.
        let mut items: Vec<(String, String)> = decls
            .iter()
            .map(|(p, u)| (if p.is_empty() { "xmlns".to_owned() } else { format!("xmlns:{}", p) }, u.clone()))
            .collect();
        if self.style.prefixes {
            for it in attrs {
                let at = if self.rng.chance(50) { items.len() } else { self.rng.below(items.len() + 1) };
                // Keep the relative order of the attributes themselves.
                let last = items.iter().rposition(|(n, _)| !n.starts_with("xmlns")).map_or(0, |i| i + 1);
                items.insert(at.max(last), it);
            }
        } else {
            items.extend(attrs);
        }
        self.out.push('<');
        self.out.push_str(&ename);
        for (n, v) in &items {
            let w = self.ws();
            self.out.push_str(w);
            self.out.push_str(n);
            let w = self.opt_ws();
            self.out.push_str(w);
            self.out.push('=');
            let w = self.opt_ws();
            self.out.push_str(w);
            let v = self.attr_value(v);
            self.out.push_str(&v);
        }
        let w = self.opt_ws();
        self.out.push_str(w);
        if e.children.is_empty() && (!self.style.markup || self.rng.chance(70)) {
            self.out.push_str("/>");
        } else {
            self.out.push('>');
            for c in &e.children {
                if fill && self.style.misc && self.rng.chance(8) {
                    self.misc();
                }
                match c {
                    Node::E(x) => self.elem(x, fill),
                    Node::T(t) => self.text(t),
                    n => self.misc_node(n),
                }
            }
            if fill && self.style.misc && self.rng.chance(8) {
                self.misc();
            }
            self.out.push_str("</");
            self.out.push_str(&ename);
            let w = self.opt_ws();
            self.out.push_str(w);
            self.out.push('>');
        }
        self.scope.truncate(mark);
    }

    /// A prefix bound to `url`, declared in this tag if need be. `used`: prefixes this tag already
    /// relies on, which must not be rebound by it.
    fn prefix_for(
        &mut self, url: &str, default_ok: bool, decls: &mut Vec<(String, String)>, used: &mut Vec<String>,
    ) -> String {
        let mut have: Vec<String> = self.bound(url);
        if !default_ok {
            have.retain(|p| !p.is_empty());
        }
        let reuse = if self.style.prefixes { 65 } else { 100 };
        if !have.is_empty() && self.rng.chance(reuse) {
            let p = self.rng.pick(&have).clone();
            used.push(p.clone());
            return p;
        }
        let free = |p: &str| decls.iter().all(|(q, _)| q != p) && used.iter().all(|q| q != p);
        let p = if self.style.prefixes && default_ok && self.rng.chance(30) && free("") {
            String::new()
        } else if self.style.prefixes {
            let mut p = (*self.rng.pick(PREFIXES)).to_owned();
            while !free(&p) {
                p = format!("{}{}", self.rng.pick(PREFIXES), self.rng.below(100));
            }
            p
        } else {
            let mut i = 0;
            loop {
                let p = format!("n{}", i);
                if self.lookup(&p).is_none() {
                    break p;
                }
                i += 1;
            }
        };
        decls.push((p.clone(), url.to_owned()));
        self.scope.push((p.clone(), url.to_owned()));
        used.push(p.clone());
        p
    }
}

/// Renders a document. Returns the text.
pub fn render(root: &Elem, style: &Style, rng: &mut Rng) -> String {
    let mut r = Renderer { rng, style: style.clone(), out: String::new(), scope: Vec::new() };
    if style.markup {
        match r.rng.below(6) {
            0 => r.out.push_str("<?xml version=\"1.0\"?>\n"),
            1 => r.out.push_str("<?xml version='1.0' encoding='UTF-8'?>"),
            2 => r.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>\r\n"),
            _ => {}
        }
        for _ in 0..r.rng.below(3) {
            if r.rng.chance(30) {
                r.misc();
                r.out.push('\n');
            }
        }
    }
    if style.doctype && r.rng.chance(10) {
        let d = *r.rng.pick(&["<!DOCTYPE x>", "<!DOCTYPE x SYSTEM \"x.dtd\">", "<!DOCTYPE html PUBLIC \"a\" \"b\">\n"]);
        r.out.push_str(d);
    }
    r.elem(root, true);
    if style.markup {
        for _ in 0..r.rng.below(4) {
            if r.rng.chance(40) {
                r.misc();
            } else {
                let w = *r.rng.pick(&["\n", " ", "\r\n", "\t"]);
                r.out.push_str(w);
            }
        }
    }
    r.out
}

// ---------------------------------------------------------------------------------------------
// Strict parser
// ---------------------------------------------------------------------------------------------

/// A parsed document: the declaration, if any, and the root.
#[derive(Debug)]
pub struct Doc {
    pub declaration: bool,
    pub root: Elem,
    /// Prefixes of the elements and attributes, for diagnostics.
    pub elements: usize,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    elements: usize,
}

type R<T> = Result<T, String>;

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

fn is_ncname_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}'
        | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}'
        | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}'
        | '\u{10000}'..='\u{effff}')
}

fn is_ncname_char(c: char) -> bool {
    is_ncname_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}

type Scope = HashMap<String, String>;

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{} at byte {}", m, self.i))
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", t))
        }
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\n', '\r']).len();
        self.i += n;
        n > 0
    }
    fn ncname(&mut self) -> R<String> {
        let r = self.rest();
        let mut end = 0;
        for (k, c) in r.char_indices() {
            if !(if k == 0 { is_ncname_start(c) } else { is_ncname_char(c) }) {
                break;
            }
            end = k + c.len_utf8();
        }
        if end == 0 {
            return self.err("expected a name");
        }
        self.i += end;
        Ok(r[..end].to_owned())
    }
    fn qname(&mut self) -> R<(String, String)> {
        let a = self.ncname()?;
        if self.eat(":") {
            let b = self.ncname()?;
            Ok((a, b))
        } else {
            Ok((String::new(), a))
        }
    }
    /// After `&`.
    fn reference(&mut self) -> R<char> {
        let Some(end) = self.rest().find(';') else { return self.err("unterminated reference") };
        let t = self.rest()[..end].to_owned();
        self.i += end + 1;
        let c = match t.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = t.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = t.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err("undeclared entity");
                };
                match n.and_then(char::from_u32).filter(|c| is_xml_char(*c)) {
                    Some(c) => c,
                    None => return self.err("reference to an illegal character"),
                }
            }
        };
        Ok(c)
    }
    fn attr_value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("expected a quoted value"),
        };
        self.i += 1;
        let mut o = String::new();
        loop {
            match self.peek() {
                None => return self.err("unterminated attribute value"),
                Some('<') => return self.err("< in attribute value"),
                Some(c) => {
                    self.i += c.len_utf8();
                    if c == q {
                        return Ok(o);
                    }
                    match c {
                        '&' => o.push(self.reference()?),
                        // Normalization of literal white space.
                        '\r' => {
                            self.eat("\n");
                            o.push(' ')
                        }
                        '\t' | '\n' => o.push(' '),
                        c => o.push(c),
                    }
                }
            }
        }
    }
    fn comment(&mut self) -> R<String> {
        let Some(e) = self.rest().find("--") else { return self.err("unterminated comment") };
        let t = self.rest()[..e].to_owned();
        self.i += e;
        self.need("-->")?;
        Ok(t)
    }
    fn pi(&mut self) -> R<(String, String)> {
        let t = self.ncname()?;
        if t.eq_ignore_ascii_case("xml") {
            return self.err("misplaced XML declaration");
        }
        if self.eat("?>") {
            return Ok((t, String::new()));
        }
        if !self.ws() {
            return self.err("bad processing instruction");
        }
        let Some(e) = self.rest().find("?>") else { return self.err("unterminated processing instruction") };
        let d = self.rest()[..e].to_owned();
        self.i += e + 2;
        Ok((t, d))
    }
    fn misc(&mut self) -> R<()> {
        loop {
            if self.ws() {
            } else if self.eat("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.i += 2;
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    /// After `<`.
    fn elem(&mut self, outer: &Scope) -> R<Elem> {
        self.elements += 1;
        let q = self.qname()?;
        let mut raw: Vec<((String, String), String)> = Vec::new();
        let empty = loop {
            let sp = self.ws();
            if self.eat("/>") {
                break true;
            }
            if self.eat(">") {
                break false;
            }
            if !sp {
                return self.err("expected white space before an attribute");
            }
            let n = self.qname()?;
            self.ws();
            self.need("=")?;
            self.ws();
            let v = self.attr_value()?;
            if raw.iter().any(|(m, _)| *m == n) {
                return self.err(&format!("duplicate attribute {:?}", n));
            }
            raw.push((n, v));
        };
        let mut own: Option<Scope> = None;
        for ((p, l), v) in &raw {
            let target = if p.is_empty() && l == "xmlns" {
                ""
            } else if p == "xmlns" {
                l.as_str()
            } else {
                continue;
            };
            if target == "xmlns" || (target == "xml") != (v == XML_NS) || v == XMLNS_NS {
                return self.err("illegal use of a reserved prefix or namespace");
            }
            if p == "xmlns" && v.is_empty() {
                return self.err("a prefix can't be undeclared");
            }
            own.get_or_insert_with(|| outer.clone()).insert(target.to_owned(), v.clone());
        }
        let scope = own.as_ref().unwrap_or(outer);
        let resolve = |p: &str, attr: bool| -> R<String> {
            if p == "xml" {
                return Ok(XML_NS.to_owned());
            }
            if p.is_empty() && attr {
                return Ok(String::new());
            }
            match scope.get(p) {
                Some(u) => Ok(u.clone()),
                None if p.is_empty() => Ok(String::new()),
                None => Err(format!("unbound prefix {:?} at byte {}", p, self.i)),
            }
        };
        let mut e = Elem::new(&resolve(&q.0, false)?, &q.1);
        for ((p, l), v) in &raw {
            if (p.is_empty() && l == "xmlns") || p == "xmlns" {
                continue;
            }
            let ns = resolve(p, true)?;
            if e.attrs.iter().any(|a| a.ns == ns && a.local == *l) {
                return self.err(&format!("duplicate attribute {{{}}}{}", ns, l));
            }
            e.attr(&ns, l, v);
        }
        if empty {
            return Ok(e);
        }
        let mut text = String::new();
        let flush = |text: &mut String, e: &mut Elem| {
            if !text.is_empty() {
                e.children.push(Node::T(std::mem::take(text)));
            }
        };
        loop {
            if self.rest().starts_with("]]>") {
                return self.err("]]> in character data");
            }
            if self.eat("</") {
                flush(&mut text, &mut e);
                let c = self.qname()?;
                if c != q {
                    return self.err("mismatched end tag");
                }
                self.ws();
                self.need(">")?;
                return Ok(e);
            } else if self.eat("<!--") {
                flush(&mut text, &mut e);
                let c = self.comment()?;
                e.children.push(Node::Comment(c));
            } else if self.eat("<![CDATA[") {
                let Some(n) = self.rest().find("]]>") else { return self.err("unterminated CDATA") };
                text.push_str(&self.rest()[..n].replace("\r\n", "\n").replace('\r', "\n"));
                self.i += n + 3;
            } else if self.eat("<?") {
                flush(&mut text, &mut e);
                let (t, d) = self.pi()?;
                e.children.push(Node::Pi(t, d));
            } else if self.eat("<") {
                flush(&mut text, &mut e);
                let c = self.elem(scope)?;
                e.children.push(Node::E(c));
            } else if self.eat("&") {
                text.push(self.reference()?);
            } else {
                match self.peek() {
                    None => return self.err("unexpected end in content"),
                    Some('\r') => {
                        self.i += 1;
                        self.eat("\n");
                        text.push('\n');
                    }
                    Some(c) => {
                        self.i += c.len_utf8();
                        text.push(c);
                    }
                }
            }
        }
    }
}

/// Parses a complete document, rejecting whatever isn't namespace-well-formed XML 1.0.
pub fn parse(s: &str) -> Result<Doc, String> {
    if let Some(c) = s.chars().find(|c| !is_xml_char(*c)) {
        return Err(format!("illegal character {:?}", c));
    }
    let mut p = P { s, i: 0, elements: 0 };
    let mut declaration = false;
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\n', '\r']) {
        p.i = 5;
        declaration = true;
        p.ws();
        p.need("version")?;
        p.ws();
        p.need("=")?;
        p.ws();
        let v = p.attr_value()?;
        if v != "1.0" && v != "1.1" {
            return p.err("bad version");
        }
        let sp = p.ws();
        if sp && p.eat("encoding") {
            p.ws();
            p.need("=")?;
            p.ws();
            if !p.attr_value()?.eq_ignore_ascii_case("utf-8") {
                return p.err("bad encoding");
            }
            p.ws();
        }
        if p.eat("standalone") {
            p.ws();
            p.need("=")?;
            p.ws();
            p.attr_value()?;
            p.ws();
        }
        p.need("?>")?;
    }
    p.misc()?;
    p.need("<")?;
    let root = p.elem(&Scope::new())?;
    p.misc()?;
    if !p.rest().is_empty() {
        return p.err("content after the root element");
    }
    Ok(Doc { declaration, root, elements: p.elements })
}
