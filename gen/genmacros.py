#!/usr/bin/env python3
"""Generates type definitions for the derive macros: ones they must accept, ones
they must reject by themselves, and ones whose generated code can't compile.

Nothing here is derived from the macros; the rules are those of the documentation
in static-xml/src/lib.rs.
"""
import random
import re

PRELUDE = r'''
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
pub mod prelude {
    pub use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
    #[derive(Deserialize, Serialize, Debug, Default)]
    pub struct Sub { pub sub: Option<String> }
    #[derive(Deserialize, Serialize, Debug)]
    pub struct Part { #[static_xml(attribute)] pub part_attr: Option<u8>, pub part: Vec<String> }
    #[derive(Deserialize, Serialize, Debug)]
    pub enum Pick { PickA(String), PickB(Vec<Sub>) }
    #[derive(ParseText, ToText, Debug, Default)]
    #[static_xml(mode = "restriction")]
    pub enum Size { #[default] Small, #[static_xml(rename = "l")] Large }
    #[derive(ParseText, ToText, Debug)]
    #[static_xml(mode = "union", whitespace = "collapse")]
    pub enum Either { Num(i32), Text(String) }
    /// Implements none of the traits.
    #[derive(Debug)]
    pub struct Opaque;
    #[derive(Debug)]
    pub struct Bad;
    impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
    impl std::error::Error for Bad {}
}
'''

# For crates that don't allow everything.
STRICT = """#![forbid(unsafe_code)]
#![deny(unused_mut, unused_variables, unused_must_use, unreachable_code, unused_assignments, unused_parens, unused_braces,
        unused_results, trivial_casts, elided_lifetimes_in_paths, unreachable_patterns, keyword_idents)]
"""

URLS = ["urn:a", "urn:b", "http://example.com/x", "http://example.com/q?x=1&y=<2>", "urn:\u00e9", "a"]
PREFIXES = ["p", "ns", "tds", "a-b", "_x", "\u00e9", "n1", "p.q"]
FIELDS = ["a", "b", "field", "r#type", "r#fn", "out", "element", "child", "attribute", "text", "name", "value",
          "visitor", "stream", "s", "e", "pos", "writer", "\u00e9t\u00e9", "_under", "x1", "self_", "default", "flatten",
          "missing", "initialized", "namespace", "attributes", "prefix", "state", "this", "builder", "r#match", "d"]
VARIANTS = ["A", "B", "Foo", "r#Type", "Ok", "Err", "None", "Some", "String", "Vec", "lower", "\u00c9", "X1", "_U", "r#fn",
            "Self_", "Out", "Result", "Default"]
NAMES = ["new-name", "Foo", "a.b", "_", "\u00e9", "x", "type", "Foo_Bar", "n1"]
LEAVES = ["String", "u8", "i8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "bool", "f32", "f64", "Size",
          "Either", "std::string::String"]
ATTR_LEAVES = LEAVES
DEFAULTABLE = [l for l in LEAVES if l != "Either"] + ["Sub"]
TYPES = ["T%d", "Type%d", "r#T%d", "\u00c9%d", "lower%d", "_T%d"]
DOCS = ["/// Documented.", "#[doc = \"attribute\"]", "#[allow(dead_code)]", "#[cfg(all())]", "/** block */"]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Item:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.derives, self.attrs, self.members, self.extra = [], [], [], ""
        self.keyword = "struct" if kind == "struct" else "enum"
        self.shape = None      # overrides the body
        self.what = "valid"
        self.raw_attrs = []    # attributes put verbatim on the type
        self.generics = ""


class Member:
    """A field or variant."""

    def __init__(self, name, ty, attrs=()):
        self.name, self.ty, self.attrs = name, ty, list(attrs)
        self.raw_attrs = []
        self.inner = ""        # attributes on a variant's field
        self.payload = None    # overrides what follows a variant's name


def attrs_src(rng, attrs, pad):
    attrs = list(attrs)
    o = ""
    if rng.random() < 0.6:
        rng.shuffle(attrs)
    while attrs:
        n = rng.choice([1, 2, len(attrs)]) if len(attrs) > 1 else 1
        part, attrs = attrs[:n], attrs[n:]
        if rng.random() < 0.15:
            o += pad + "#[static_xml(\n" + "".join(pad + "    %s,\n" % a for a in part) + pad + ")]\n"
        else:
            o += pad + "#[static_xml(%s%s)]\n" % (", ".join(part), "," if rng.random() < 0.2 else "")
        if rng.random() < 0.1:
            o += pad + "#[static_xml()]\n"
        if rng.random() < 0.1:
            o += pad + rng.choice(DOCS) + "\n"
    return o


def render(rng, it):
    o = ""
    if rng.random() < 0.3:
        o += rng.choice(DOCS) + "\n"
    if it.derives:
        d = list(it.derives)
        rng.shuffle(d)
        if len(d) > 1 and rng.random() < 0.3:
            o += "#[derive(%s)]\n#[derive(%s)]\n" % (d[0], ", ".join(d[1:]))
        else:
            o += "#[derive(%s)]\n" % ", ".join(d)
    o += attrs_src(rng, it.attrs, "")
    o += "".join(a + "\n" for a in it.raw_attrs)
    vis = rng.choice(["", "pub ", "pub(crate) "])
    head = "%s%s %s%s" % (vis, it.keyword, it.name, it.generics)
    if it.shape is not None:
        o += head + it.shape + "\n"
    else:
        o += head + " {\n"
        for m in it.members:
            if rng.random() < 0.15:
                o += "    " + rng.choice(DOCS) + "\n"
            o += attrs_src(rng, m.attrs, "    ")
            o += "".join("    " + a + "\n" for a in m.raw_attrs)
            if it.keyword == "struct":
                o += "    %s%s: %s,\n" % (rng.choice(["", "pub ", "pub(crate) "]), m.name, m.ty)
            elif m.payload is not None:
                o += "    %s%s,\n" % (m.name, m.payload)
            elif m.ty is None:
                o += "    %s,\n" % m.name
            else:
                o += "    %s(%s%s),\n" % (m.name, m.inner, m.ty)
        o += "}\n"
    return o + it.extra


def namespaces(rng, it):
    """Adds namespace declarations; returns the usable prefixes."""
    ps = []
    for p in rng.sample(PREFIXES, rng.choice([0, 0, 1, 1, 2, 3])):
        # What's before the first ": " is the prefix.
        url = rng.choice(URLS) if rng.random() < 0.8 else rng.choice(["urn:c: d", "urn:x: y: z", "p: urn:y"])
        it.attrs.append("namespace = %s" % q(rng.choice(["%s: %s", " %s : %s ", "%s:  %s"]) % (p, url)))
        ps.append(p)
    if rng.random() < 0.15:
        it.attrs.append('namespace = "xml: http://www.w3.org/XML/1998/namespace"')
    r = rng.random()
    if r < 0.12:
        it.attrs.append("default_namespace = %s" % q(rng.choice(URLS)))
    elif r < 0.2:
        it.attrs.append("namespace = %s" % q(rng.choice(URLS)))
    if ps and rng.random() < 0.5:
        it.attrs.append("prefix = %s" % q(rng.choice(ps)))
    if rng.random() < 0.3:
        it.attrs.append("rename = %s" % q(rng.choice(NAMES)))
    return ps


def naming(rng, ps, used, i):
    """rename and prefix, such that names stay distinct."""
    a = []
    if rng.random() < 0.3:
        a.append("rename = %s" % q("%s%d" % (rng.choice(NAMES), i)))
    if rng.random() < 0.35:
        if ps:
            a.append("prefix = %s" % q(rng.choice(ps + [" %s " % ps[0]])))
        elif rng.random() < 0.3:
            a.append('prefix = "xml"')
    return a


def derives(rng, of, debug=True):
    d = rng.choice([of, of, of[:1], of[1:]])
    return list(d) + (["Debug"] if debug and rng.random() < 0.3 else [])


def element_struct(rng, name):
    it = Item("struct", name)
    it.derives = derives(rng, ["Deserialize", "Serialize"])
    ps = namespaces(rng, it)
    text = False
    parts = 0
    for i, f in enumerate(rng.sample(FIELDS, rng.choice([0, 1, 2, 3, 4, 6]))):
        r = rng.random()
        if r < 0.5:
            ty = rng.choice(LEAVES + ["Sub", "Part", "Pick"])
            a = naming(rng, ps, None, i)
            if rng.random() < 0.25:
                ty = rng.choice(DEFAULTABLE)
                a.append("default")
            elif rng.random() < 0.6:
                ty = rng.choice(["Option<%s>", "Vec<%s>", "std::vec::Vec<%s>", "Option<%s>"]) % ty
                if rng.random() < 0.2:
                    a.append("default")
        elif r < 0.8:
            ty = rng.choice(ATTR_LEAVES)
            a = naming(rng, ps, None, i) + ["attribute"]
            if rng.random() < 0.25:
                ty = rng.choice([t for t in DEFAULTABLE if t != "Sub"])
                a.append("default")
            elif rng.random() < 0.5:
                ty = "Option<%s>" % ty
        elif r < 0.92 and parts < 3:
            ty = rng.choice(["Part", "Pick", "Sub"])
            parts += 1
            a = ["flatten"]
        elif not text:
            text = True
            ty = rng.choice(LEAVES)
            a = ["text"]
            if ty != "Either" and rng.random() < 0.3:
                a.append("default")
        else:
            continue
        it.members.append(Member(f, ty, a))
    return it


def element_enum(rng, name):
    it = Item("enum", name)
    it.derives = derives(rng, ["Deserialize", "Serialize"])
    ps = namespaces(rng, it)
    for i, v in enumerate(rng.sample(VARIANTS, rng.choice([1, 2, 3, 5]))):
        ty = rng.choice(LEAVES + ["Sub", "Part", "Pick"])
        r = rng.random()
        ty = "Option<%s>" % ty if r < 0.15 else "Vec<%s>" % ty if r < 0.4 else ty if r < 0.85 else None
        m = Member(v, ty, naming(rng, ps, None, i))
        if i > 0 and rng.random() < 0.15:
            m.attrs = ["skip"]
            m.payload = rng.choice([None, "", "(Opaque)", "(String, u8)", " { x: u8 }"])
        it.members.append(m)
    return it


def text_attrs(rng, it, mode):
    it.attrs.append("mode = %s" % q(mode))
    if rng.random() < 0.5:
        it.attrs.append("whitespace = %s" % q(rng.choice(["preserve", "replace", "collapse"])))


def restriction(rng, name):
    it = Item("restriction", name)
    it.derives = derives(rng, ["ParseText", "ToText"])
    text_attrs(rng, it, "restriction")
    for i, v in enumerate(rng.sample(VARIANTS, rng.choice([0, 1, 2, 4]))):
        m = Member(v, None)
        if rng.random() < 0.5:
            m.attrs.append("rename = %s" % q(rng.choice(["", " ", "<&>", "small", "two words", "\u00e9", "Ok"]) + str(i)))
        it.members.append(m)
    if rng.random() < 0.4:
        m = Member("Unknown", "String", ["unknown"])
        it.members.insert(rng.randint(0, len(it.members)), m)
    return it


def union(rng, name):
    it = Item("union", name)
    it.derives = derives(rng, ["ParseText", "ToText"])
    text_attrs(rng, it, "union")
    for v in rng.sample(VARIANTS, rng.choice([1, 2, 3])):
        it.members.append(Member(v, rng.choice(LEAVES)))
    return it


def std(rng, name):
    it = Item("std", name)
    it.derives = derives(rng, ["ParseText", "ToText"], debug=False)
    text_attrs(rng, it, "std")
    it.keyword = rng.choice(["struct", "enum"])
    it.shape = {"struct": rng.choice([";", "(u8);", " { x: u8, y: String }"]), "enum": " { A, B(u8), C { x: u8 } }"}[it.keyword]
    it.extra = ("impl ::std::str::FromStr for %s { type Err = Bad; fn from_str(_: &str) -> ::std::result::Result<Self, Bad> { ::std::result::Result::Err(Bad) } }\n"
                "impl ::std::fmt::Display for %s { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(\"\") } }\n") % (name, name)
    return it


KINDS = [element_struct, element_struct, element_struct, element_enum, element_enum, restriction, union, std]


def type_name(rng, i):
    return rng.choice(TYPES) % i


def valid(rng, i):
    return rng.choice(KINDS)(rng, type_name(rng, i))


def clean(it, words):
    """Removes items beginning with any of the words."""
    it.attrs = [a for a in it.attrs if not any(a.startswith(w) for w in words)]


# ---------------------------------------------------------------------------------------------
# Definitions to be rejected. Each takes a valid item and returns what's wrong with it, or None
# if it doesn't apply.
# ---------------------------------------------------------------------------------------------

BAD_ITEMS = ['bogus', 'bogus = "x"', 'bogus(x)', '"literal"', '1', 'renamed = "x"', 'Rename = "x"', 'a::b',
                       'a::rename = "x"', 'rename', 'rename("x")', 'prefix', 'prefix("p")', 'deafult', 'attributes',
                       'rename_all = "lowercase"', 'text = "x"', 'attribute = "x"', 'flatten()', 'default = "f"',
                       'skip_serializing', 'default::default', "true", 'serde(rename = "x")']


def bad_item(rng):
    return rng.choice(BAD_ITEMS)


LITERALS = ["1", "1u8", "1.5", "true", "'c'", 'b"x"', "b'x'", "0x10", "1_000_000_000_000_000_000_000_000_000", "1f32"]


def elementish(it):
    return it.kind in ("struct", "enum")


def r_unknown_on_type(rng, it, b=None):
    b = b or bad_item(rng)
    it.attrs.insert(rng.randint(0, len(it.attrs)), b)
    return "unknown item %s on the type" % b


def r_misplaced_on_type(rng, it):
    if elementish(it):
        b = rng.choice(['mode = "std"', 'mode = "restriction"', 'whitespace = "collapse"', "attribute", "default", "flatten", "text", "skip", "unknown"])
    else:
        b = rng.choice(['rename = "x"', 'prefix = "p"', 'namespace = "p: urn:x"', 'default_namespace = "urn:x"', "attribute", "text", "unknown", "skip"])
    it.attrs.append(b)
    return "misplaced item %s on the type" % b


def r_unknown_on_member(rng, it, b=None, place=None):
    ms = it.members
    if place:
        ms = [m for m in ms if place in m.attrs]
    if not ms or it.kind == "std":
        return None
    m = rng.choice(ms)
    b = b or bad_item(rng)
    m.attrs.insert(rng.randint(0, len(m.attrs)), b)
    return "unknown item %s on member %s" % (b, m.name)


def r_misplaced_on_member(rng, it):
    if not it.members or it.kind == "std":
        return None
    m = rng.choice(it.members)
    b = rng.choice({
        "struct": ['namespace = "q: urn:q"', 'default_namespace = "urn:q"', "skip", "unknown", 'mode = "std"', 'whitespace = "collapse"'],
        "enum": ['namespace = "q: urn:q"', "unknown", "attribute", "default", "flatten", "text", 'mode = "std"', 'whitespace = "collapse"'],
        "restriction": ["skip", "attribute", "default", 'prefix = "p"', 'whitespace = "collapse"', 'mode = "std"', "text"],
        "union": ["skip", "attribute", "default", 'prefix = "p"', 'rename = "x"', 'whitespace = "collapse"', "unknown"],
    }[it.kind])
    m.attrs.append(b)
    return "misplaced item %s on member %s" % (b, m.name)


def r_on_payload(rng, it):
    ms = [m for m in it.members if m.ty and m.payload is None and it.keyword == "enum" and it.kind != "std"]
    if not ms:
        return None
    m = rng.choice(ms)
    b = rng.choice(["bogus", "attribute", 'rename = "x"', "text", "skip", 'bogus = "x"'])
    m.inner = "#[static_xml(%s)] " % b
    return "item %s within variant %s" % (b, m.name)


def r_within_std(rng, it):
    if it.kind != "std":
        return None
    a = "#[static_xml(%s)] " % rng.choice(["bogus", 'rename = "x"', "attribute", "unknown"])
    if it.keyword == "struct":
        it.shape = rng.choice(["(%su8);", " { %sx: u8 }"]) % a
    else:
        it.shape = rng.choice([" { %sA, B }", " { A(%su8) }", " { A { %sx: u8 } }"]) % a
    return "item within a type with mode = \"std\""


def r_literal_on_type(rng, it):
    w = rng.choice(["rename", "prefix", "namespace", "default_namespace"] if elementish(it) else ["mode", "whitespace"])
    clean(it, [w + " "])
    it.attrs.append("%s = %s" % (w, rng.choice(LITERALS)))
    return "wrong literal for %s on the type" % w


def r_literal_on_member(rng, it):
    ms = [m for m in it.members if not (it.kind == "union" or "unknown" in m.attrs)]
    if not ms or it.kind == "std":
        return None
    m = rng.choice(ms)
    w = rng.choice(["rename", "prefix"]) if elementish(it) else "rename"
    m.attrs = [a for a in m.attrs if not a.startswith(w)] + ["%s = %s" % (w, rng.choice(LITERALS))]
    return "wrong literal for %s on member %s" % (w, m.name)


def r_mode(rng, it):
    if elementish(it):
        return None
    clean(it, ["mode"])
    r = rng.randint(0, 2)
    if r == 0:
        return "no mode"
    if r == 1:
        it.attrs.append('mode = %s' % q(rng.choice(["Std", "bogus", "", "list", "restrictions", " std"])))
        return "unknown mode"
    it.attrs += ['mode = %s' % q(it.kind), 'mode = %s' % q(rng.choice(["std", "union", "restriction"]))]
    return "two modes"


def r_whitespace(rng, it):
    if elementish(it):
        return None
    clean(it, ["whitespace"])
    it.attrs.append("whitespace = %s" % q(rng.choice(["Collapse", "", "trim", "collapse ", "none"])))
    return "unknown whitespace mode"


def r_exclusive(rng, it):
    if it.kind == "restriction":
        it.members = [m for m in it.members if "unknown" not in m.attrs]
        it.members.append(Member("Unk", "String", ["unknown", 'rename = "x"']))
        return "unknown and rename"
    if it.kind != "struct":
        return None
    combo = rng.choice([["attribute", "flatten"], ["attribute", "text"], ["flatten", "text"],
                        ["attribute", "flatten", "text"], ["default", "flatten"]])
    ty = "Part" if "flatten" in combo else "String"
    it.members = [m for m in it.members if "text" not in m.attrs]
    it.members.insert(rng.randint(0, len(it.members)), Member("zz", ty, combo))
    return "exclusive " + ", ".join(combo)


def r_prefix(rng, it):
    if not elementish(it):
        return None
    bad = rng.choice(["undeclared", "P", "pp", "xmlns", "xml2", "nsx", "kk: urn:k"])
    if bad[0] == "k":
        # Declares kk.
        it.attrs.append('namespace = "kk: urn:k: l"')
    ms = [m for m in it.members if not set(m.attrs) & {"flatten", "text", "skip"}]
    if rng.random() < 0.4 or not ms:
        clean(it, ["prefix"])
        it.attrs.insert(rng.randint(0, len(it.attrs)), "prefix = %s" % q(bad))
        return "undeclared prefix on the type"
    m = rng.choice(ms)
    m.attrs = [a for a in m.attrs if not a.startswith("prefix")] + ["prefix = %s" % q(bad)]
    return "undeclared prefix on member %s" % m.name


def r_two_prefixes(rng, it):
    if not elementish(it):
        return None
    ms = [m for m in it.members if not set(m.attrs) & {"flatten", "text", "skip"}]
    if not ms:
        return None
    it.attrs += ['namespace = "k1: urn:k1"', 'namespace = "k2: urn:k2"']
    if rng.random() < 0.4:
        clean(it, ["prefix"])
        two = rng.choice([["k1", "k2"], ["k1", "k1"], ["nosuch", "k1"], ["k2", "nosuch"], ["", "k1"], ["k1", ""]])
        it.attrs += ["prefix = %s" % q(x) for x in two]
        return "two prefixes on the type"
    m = rng.choice(ms)
    m.attrs = [a for a in m.attrs if not a.startswith("prefix")] + ['prefix = "k1"', 'prefix = "k2"']
    return "two prefixes on member %s" % m.name


def r_reassigned(rng, it):
    if not elementish(it):
        return None
    clean(it, ["default_namespace", 'namespace = "urn', 'namespace = "http', 'namespace = "a"'])
    two = rng.choice([
        ['namespace = "kk: urn:1"', 'namespace = "kk: urn:2"'],
        ['namespace = "kk: urn:1"', 'namespace = " kk :  urn:2"'],
        ['default_namespace = "urn:1"', 'default_namespace = "urn:2"'],
        ['default_namespace = "urn:1"', 'namespace = "urn:2"'],
        ['namespace = "urn:1"', 'namespace = "urn:2"'],
        ['namespace = "urn:1"', 'default_namespace = "urn:2"'],
    ])
    it.attrs += two
    return "reassigned prefix: " + " ".join(two)


def r_reserved(rng, it):
    if not elementish(it):
        return None
    b = rng.choice(["xml: urn:a", "xmlns: urn:a", "xmlns: http://www.w3.org/2000/xmlns/", "xml: http://www.w3.org/2000/xmlns/",
                    "xml: http://www.w3.org/XML/1998/namespac", "xmlfoo: urn:a", " xml : urn:x", "xmlns: urn:a: b",
                    "xml: urn:a: b", "xml: a: http://www.w3.org/XML/1998/namespace", "xml: http://www.w3.org/XML/1998/namespace: x"])
    it.attrs.append("namespace = %s" % q(b))
    return "reserved prefix: " + b


def r_shape(rng, it):
    if it.kind == "struct":
        # Attributes on the type stay.
        it.shape = rng.choice(["(String);", ";", "();", "(String, u8);"])
        if rng.random() < 0.2:
            it.keyword, it.shape = "union", " { a: u8, b: u16 }"
        return "unsupported shape" + it.shape
    if it.kind == "enum":
        m = rng.choice(it.members)
        m.attrs = [a for a in m.attrs if a != "skip"]
        m.payload = rng.choice(["(String, u8)", " { x: String }", "()", " {}", "(String, String, String)"])
        return "variant " + m.name + m.payload
    if it.kind == "restriction":
        r = rng.randint(0, 3)
        if r == 0:
            it.keyword, it.shape = "struct", rng.choice([" { x: u8 }", "(String);", ";"])
            return "restriction struct"
        if r == 1:
            m = Member("Known", "String")
            m.payload = rng.choice(["(String)", " { x: String }", "()", "(u8, u8)"])
            it.members.append(m)
            return "restriction variant " + m.payload
        it.members = [m for m in it.members if "unknown" not in m.attrs]
        if r == 2:
            m = Member("Unk", "String", ["unknown"])
            m.payload = rng.choice(["", "(String, u8)", " { x: String }", "()"])
            it.members.append(m)
            return "unknown variant " + m.payload
        it.members += [Member("Unk1", "String", ["unknown"]), Member("Unk2", "String", ["unknown"])]
        return "two unknown variants"
    if it.kind == "union":
        if rng.random() < 0.3:
            it.keyword, it.shape = "struct", rng.choice([" { x: u8 }", "(String);", ";"])
            return "union struct"
        m = Member("Odd", None)
        m.payload = rng.choice(["", "(String, u8)", " { x: String }", "()"])
        it.members.append(m)
        return "union variant " + m.payload
    return None


def r_two_texts(rng, it):
    if it.kind != "struct":
        return None
    it.members = [m for m in it.members if "text" not in m.attrs]
    it.members += [Member("zz1", "String", ["text"])]
    it.members.insert(rng.randint(0, len(it.members)), Member("zz2", "u8", ["text"]))
    return "two text fields"


def r_syntax(rng, it):
    a = rng.choice(['#[static_xml]', '#[static_xml = "x"]', '#[static_xml(rename "x")]', '#[static_xml(,)]',
                    '#[static_xml(rename = )]', '#[static_xml(rename = -1)]', '#[static_xml(rename = x)]',
                    '#[static_xml(rename = concat!("a", "b"))]', '#[static_xml(rename = "a" prefix = "b")]',
                    '#[static_xml(= "x")]', '#[static_xml(a b)]', '#[static_xml(rename = "a" + "b")]', '#[static_xml(;)]',
                    '#[static_xml(rename = ["a"])]', '#[static_xml{a = 1;}]', '#[static_xml(())]', '#[static_xml(rename == "x")]'])
    ms = it.members if it.kind != "std" and it.shape is None else []
    if ms and rng.random() < 0.5:
        m = rng.choice(ms)
        m.raw_attrs.append(a)
        return "malformed %s on member %s" % (a, m.name)
    it.raw_attrs.append(a)
    return "malformed %s on the type" % a


def r_unparsable(rng, it):
    if it.kind == "struct":
        it.members.append(Member("zz", rng.choice(["[u8; { 3 }]", "[u8; if true { 1 } else { 2 }]", "[u8; match 1 { _ => 2 }]"])))
        return "an array length syn can't parse"
    return None


REJECT = [r_unknown_on_type, r_misplaced_on_type, r_unknown_on_member, r_misplaced_on_member, r_on_payload, r_within_std,
          r_literal_on_type, r_literal_on_member, r_mode, r_whitespace, r_exclusive, r_prefix, r_two_prefixes, r_reassigned,
          r_reserved, r_shape, r_two_texts, r_syntax, r_unparsable]


def invalid(rng, i, rule, kind=None):
    while True:
        it = valid(rng, i)
        if kind and it.kind != kind:
            continue
        it.derives = [rng.choice([d for d in it.derives if d != "Debug"])]
        it.extra = it.extra if it.kind == "std" else ""
        what = rule(rng, it)
        if what is None:
            continue
        if any("'a" in a for a in it.attrs):
            continue
        it.what = what
        return it


# ---------------------------------------------------------------------------------------------
# Definitions whose generated code doesn't compile.
# ---------------------------------------------------------------------------------------------

def untypable(rng, i):
    n = type_name(rng, i)
    both = ["Deserialize", "Serialize"]
    r = rng.randint(0, 9)
    it = Item("struct", n)
    it.derives = [rng.choice(both)]
    it.members = [Member("fine", "String")]
    if r == 0:
        it.members.append(Member("x", "Opaque"))
        it.what = "element of a type without the trait"
    elif r == 1:
        it.members.append(Member("x", rng.choice(["Opaque", "Vec<u8>", "Sub"]), ["attribute"]))
        it.what = "attribute of a type without the trait"
    elif r == 2:
        it.members.append(Member("x", rng.choice(["Option<u8>", "Vec<String>", "Sub"]), ["text"]))
        it.what = "text of a type without the trait"
    elif r == 3:
        it.derives = ["Deserialize"]
        it.members.append(Member("x", rng.choice(["String", "Vec<Part>", "Option<Part>"]), ["flatten"]))
        it.what = "flattened type without the trait"
    elif r == 4:
        it.derives = ["Deserialize"]
        it.members.append(Member("x", "Part", ["default"]))
        it.what = "default of a type without Default"
    elif r == 5:
        it = Item("enum", n)
        it.derives = [rng.choice(both)]
        it.members = [Member("A", "String"), Member("B", "Opaque")]
        it.what = "alternative of a type without the trait"
    elif r == 6:
        it = Item("restriction", n)
        it.derives = [rng.choice(["ParseText", "ToText"])]
        it.attrs = ['mode = "restriction"']
        it.members = [Member("A", None), Member("U", "Opaque", ["unknown"])]
        it.what = "unknown variant of another type"
    elif r == 7:
        it = Item("union", n)
        it.derives = [rng.choice(["ParseText", "ToText"])]
        it.attrs = ['mode = "union"']
        it.members = [Member("A", "u8"), Member("B", rng.choice(["Opaque", "Sub"]))]
        it.what = "union of a type without the trait"
    elif r == 8:
        it = Item("std", n)
        it.derives = [rng.choice(["ParseText", "ToText"])]
        it.attrs = ['mode = "std"']
        it.shape = ";"
        it.what = "std without the traits"
    else:
        it.members.append(Member("x", "Option<Option<u8>>"))
        it.what = "nested options"
    return it


def generic(rng, i):
    n = type_name(rng, i)
    it = Item("struct", n)
    it.derives = [rng.choice(["Deserialize", "Serialize"])]
    it.generics, ty = rng.choice([("<'a>", "&'a str"), ("<T>", "T"), ("<T: Clone>", "Vec<T>"), ("<const N: usize>", "[u8; N]")])
    it.members = [Member("x", ty)]
    it.what = "generics"
    return it


def packed(rng, i):
    """Fields that may not be aligned."""
    it = Item("struct", type_name(rng, i))
    it.derives = ["Deserialize"]
    k = rng.choice([1, 1, 2, 4])
    it.raw_attrs = ["#[repr(%s)]" % rng.choice(["packed" if k == 1 else "packed(%d)" % k, "C, packed(%d)" % k])]
    mode = rng.choice(["", "attribute", "text", "flatten", "default"])
    ty = {"": "Vec<u8>", "flatten": "Part"}.get(mode, "u64" if rng.random() < 0.5 else "String")
    if k > 4 and ty == "u64":
        ty = "u128"
    it.members = [Member("a", "u8"), Member("zz", ty, [mode] if mode else [])]
    if rng.random() < 0.5:
        it.members.reverse()
    it.what = "packed(%d) %s" % (k, mode)
    return it


def aligned(rng, i):
    """Packed in vain."""
    it = Item("struct", type_name(rng, i))
    it.derives = ["Deserialize"]
    if rng.random() < 0.5:
        it.raw_attrs = ["#[repr(%s)]" % rng.choice(["packed", "C, packed(1)"])]
        it.members = [Member("a", "u8"), Member("b", "bool", ["attribute"]), Member("c", "Option<i8>")]
    else:
        it.raw_attrs = ["#[repr(%s)]" % rng.choice(["packed(16)", "C, packed(8)", "C", "align(64)"])]
        it.members = [Member("a", "u8"), Member("b", "String", ["attribute"]), Member("c", "Option<u64>"), Member("d", "Part", ["flatten"])]
    return it


# The definition's own names are no concern of the macros.
SHADOWS = ["type Result<T> = ::std::vec::Vec<T>;", "struct Result;", "struct Option;", "struct String;", "struct Vec;", "struct Box;",
           "trait Default {}", "trait Drop {}", "trait From {}", "mod std { pub mod option {} }", "mod static_xml {}", "mod core {}", "fn Ok() {}",
           "fn Err() {}", "struct Some;", "struct None;", "struct VisitorError;", "mod de {}", "mod ser {}",
           "trait AsRef {}", "trait Into {}", "trait Iterator {}", "struct MaybeUninit;", "macro_rules! format { () => { nonsense } }",
           "macro_rules! stringify { () => { nonsense } }", "macro_rules! matches { () => { nonsense } }", "struct ELEMENTS;",
           "macro_rules! vec { () => { nonsense } }", "macro_rules! panic { () => { nonsense } }", "macro_rules! unreachable { () => { nonsense } }"]


def qualified(ty):
    for a, b in [("std::string::String", "String"), ("std::vec::Vec", "Vec")]:
        ty = ty.replace(a, b)
    for a, b in [("String", "::std::string::String"), ("Vec", "::std::vec::Vec"), ("Option", "::std::option::Option")]:
        ty = re.sub(r"\b%s\b" % a, b, ty)
    return ty


def shadowed(rng, it):
    """The source of a definition in a module which uses the standard library's names for something else."""
    for m in it.members:
        m.ty = m.ty and qualified(m.ty)
        m.payload = m.payload and qualified(m.payload)
    if it.shape:
        it.shape = qualified(it.shape)
    it.derives = [d for d in it.derives if d != "Debug"]
    names = set()
    o = ""
    for x in rng.sample(SHADOWS, rng.randint(1, len(SHADOWS))):
        n = re.match(r".*? (\w+)", x).group(1)
        if n not in names:
            names.add(n)
            o += x + "\n"
    return o + render(rng, it)


def by_macro(rng, it):
    """The source of a definition made by macro_rules!, from names, types, or both."""
    params, args, k = [], [], [0]

    def param(kind, value):
        k[0] += 1
        params.append("$v%d:%s" % (k[0], kind))
        args.append(value)
        return "$v%d" % k[0]
    it.derives = [d for d in it.derives if d != "Debug"]
    what = rng.choice([["n"], ["t"], ["m"], ["n", "m"], ["n", "m", "t"], ["m", "t"], []])
    if "n" in what and it.kind != "std":
        it.name = param("ident", it.name)
    for m in it.members:
        if "m" in what and (m.payload is None or "skip" in m.attrs):
            m.name = param("ident", m.name)
        if "t" in what and m.ty and m.payload is None:
            m.ty = param(rng.choice(["ty", "ty", "path"]) if not m.ty.startswith("[") else "ty", m.ty)
        elif m.ty is not None and rng.random() < 0.2 and re.match(r"\w+$", m.ty):
            m.ty = param("ident", m.ty)
    extra, it.extra = it.extra, ""
    body = render(rng, it)
    return "macro_rules! define { (%s) => {\n%s} }\ndefine!(%s);\n%s" % (", ".join(params), body, ", ".join(args), extra)


def generate(seed, n_accept, n_reject, n_type):
    """{crate: [(expectation, what, source)]}"""
    rng = random.Random("macros %d" % seed)
    accept, reject, typed, gen = [], [], [], []
    for i in range(n_accept):
        # All kinds equally often.
        it = KINDS[i % len(KINDS)](rng, type_name(rng, i))
        what = "%s, derives %s" % (it.kind, ", ".join(it.derives))
        form = rng.randint(0, 9)
        if form == 0:
            accept.append(("accept", what, shadowed(rng, it)))
        elif form <= 2:
            accept.append(("accept", what, by_macro(rng, it)))
        else:
            accept.append(("accept", what, render(rng, it)))
    for i in range(max(4, n_type // 12)):
        accept.append(("accept", "packed in vain, derives Deserialize", render(rng, aligned(rng, n_accept + i))))
    for i in range(n_reject):
        it = invalid(rng, i, REJECT[i % len(REJECT)])
        reject.append(("reject", "%s (%s, derives %s)" % (it.what, it.kind, it.derives[0]), render(rng, it)))
    # Each in each kind of place.
    i = n_reject
    for kind, place in [("struct", None), ("struct", "attribute"), ("struct", "text"), ("struct", "flatten"), ("struct", "default"), ("enum", None),
                        ("enum", "skip"), ("restriction", None), ("restriction", "unknown"), ("union", None), ("std", "type")]:
        for b in BAD_ITEMS:
            for on_type in [True, False]:
                if place and place != "type" and on_type or place == "type" and not on_type:
                    continue
                rule = (lambda r, t: r_unknown_on_type(r, t, b)) if on_type else (lambda r, t: r_unknown_on_member(r, t, b, place))
                it = invalid(rng, i, rule, kind)
                reject.append(("reject", "%s (%s, derives %s)" % (it.what, it.kind, it.derives[0]), render(rng, it)))
                i += 1
    strict = []
    for i in range(n_type):
        it = KINDS[i % len(KINDS)](rng, type_name(rng, i))
        what = "%s, derives %s" % (it.kind, ", ".join(it.derives))
        strict.append(("accept", what, by_macro(rng, it) if rng.random() < 0.2 else render(rng, it)))
    unaligned = []
    for i in range(max(6, n_type // 6)):
        it = packed(rng, i)
        unaligned.append(("reject", "%s (derives %s)" % (it.what, it.derives[0]), render(rng, it)))
    for i in range(n_type):
        it = untypable(rng, i)
        typed.append(("reject", "%s (derives %s)" % (it.what, it.derives[0]), render(rng, it)))
    for i in range(max(4, n_type // 6)):
        it = generic(rng, i)
        gen.append(("either", "%s (derives %s)" % (it.what, it.derives[0]), render(rng, it)))
    return {"accept": accept, "reject": reject, "typed": typed, "generic": gen, "packed": unaligned, "strict": strict}


if __name__ == "__main__":
    import sys
    for c, items in generate(int(sys.argv[1]), 16, 38, 10).items():
        print("//", c)
        for e, w, s in items:
            print("//", e, w)
            print(s)
