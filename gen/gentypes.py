#!/usr/bin/env python3
"""Generates the Rust types the monitors drive: a fixed set covering every
combination of features, plus a random set chosen by the seed.

For every type it emits the definition with derive attributes (the input of the
macros under test) and, independently of those macros, a descriptor of what the
type means (the input of the reference interpreter) and conversions to and from
the monitors' value model.
"""
import random

URLS = ["urn:a", "urn:b", "http://example.com/q?x=1&y=2", "urn:\u00fc", "http://example.org", "http://www.example.net/ns/",
        "HTTP://Example.COM/Case", "urn:a#frag", "urn:A"]
XML_NS = "http://www.w3.org/XML/1998/namespace"
KEYWORDS = {"type", "match", "fn", "use", "mod", "ref", "move", "loop"}


def rs(s):
    return '"' + "".join(
        c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s
    ) + '"'


def ident(n):
    return "r#" + n if n in KEYWORDS else n


class Leaf:
    """A text type. `rust` is the Rust type."""

    def __init__(self, rust, src="", default=None):
        self.rust, self.src, self.default = rust, src, default


BUILTIN = [Leaf(t) for t in
           "String bool i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64".split()]
B = {l.rust: l for l in BUILTIN}
TRACKED = Leaf("Tracked")


def restr(name, ws, variants, unknown=None, default=0, unknown_at=None):
    """variants: [(ident, text-or-None)]; unknown: ident of the catch-all."""
    a = ['mode = "restriction"']
    if ws:
        a.append('whitespace = "%s"' % ws)
    o = "#[derive(Debug, Clone, PartialEq, ParseText, ToText)]\n#[static_xml(%s)]\npub enum %s {\n" % (
        ", ".join(a), name)
    lines = []
    for i, t in variants:
        lines.append(("    #[static_xml(rename = %s)]\n" % rs(t) if t is not None else "") + "    %s,\n" % ident(i))
    if unknown:
        lines.insert(len(lines) if unknown_at is None else unknown_at, "    #[static_xml(unknown)]\n    %s(String),\n" % unknown)
    o += "".join(lines)
    o += "}\n"
    o += "impl Default for %s { fn default() -> Self { Self::%s } }\n" % (
        name, ident(variants[default][0]) if variants else unknown + '("dflt".to_owned())')
    o += "impl LeafModel for %s {\n" % name
    o += "    fn leaf() -> Leaf { Leaf::Restr { name: %s, ws: Ws::%s, known: &[%s], unknown: %s } }\n" % (
        rs(name), (ws or "preserve").capitalize(),
        ", ".join(rs(t if t is not None else i) for i, t in variants), "true" if unknown else "false")
    o += "    fn to_leaf(&self) -> LeafVal { match self {\n"
    for k, (i, _) in enumerate(variants):
        o += "        Self::%s => LeafVal::Variant(%d),\n" % (ident(i), k)
    if unknown:
        o += "        Self::%s(s) => LeafVal::Str(s.clone()),\n" % unknown
    o += "    } }\n    fn from_leaf(v: &LeafVal) -> Self { match v {\n"
    for k, (i, _) in enumerate(variants):
        o += "        LeafVal::Variant(%d) => Self::%s,\n" % (k, ident(i))
    if unknown:
        o += "        LeafVal::Str(s) => Self::%s(s.clone()),\n" % unknown
    o += "        _ => unreachable!(),\n    } }\n}\nleaf_model!(%s);\n" % name
    return Leaf(name, o, "Variant")


def union(name, ws, variants):
    """variants: [(ident, Leaf)]"""
    a = ['mode = "union"']
    if ws:
        a.append('whitespace = "%s"' % ws)
    o = "#[derive(Debug, Clone, PartialEq, ParseText, ToText)]\n#[static_xml(%s)]\npub enum %s {\n" % (
        ", ".join(a), name)
    for i, l in variants:
        o += "    %s(%s),\n" % (i, l.rust)
    o += "}\n"
    o += "impl Default for %s { fn default() -> Self { Self::%s(Default::default()) } }\n" % (name, variants[-1][0])
    o += "impl LeafModel for %s {\n" % name
    o += "    fn leaf() -> Leaf { Leaf::Union { name: %s, ws: Ws::%s, of: vec![%s] } }\n" % (
        rs(name), (ws or "preserve").capitalize(),
        ", ".join("<%s as LeafModel>::leaf()" % l.rust for _, l in variants))
    o += "    fn to_leaf(&self) -> LeafVal { match self {\n"
    for k, (i, _) in enumerate(variants):
        o += "        Self::%s(v) => LeafVal::Union(%d, Box::new(v.to_leaf())),\n" % (i, k)
    o += "    } }\n    fn from_leaf(v: &LeafVal) -> Self { match v {\n"
    for k, (i, l) in enumerate(variants):
        o += "        LeafVal::Union(%d, v) => Self::%s(<%s as LeafModel>::from_leaf(v)),\n" % (k, i, l.rust)
    o += "        _ => unreachable!(),\n    } }\n}\nleaf_model!(%s);\n" % name
    return Leaf(name, o)


def std(name, ws):
    a = ['mode = "std"']
    if ws:
        a.append('whitespace = "%s"' % ws)
    o = """#[derive(Debug, Clone, PartialEq, Default, ParseText, ToText)]
#[static_xml(%(a)s)]
pub struct %(n)s(pub String);
impl std::str::FromStr for %(n)s {
    type Err = ProbeError;
    fn from_str(s: &str) -> Result<Self, ProbeError> {
        if s.contains("bad") { Err(ProbeError(s.to_owned())) } else { Ok(%(n)s(s.to_owned())) }
    }
}
impl std::fmt::Display for %(n)s {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl LeafModel for %(n)s {
    fn leaf() -> Leaf { Leaf::Std { ws: Ws::%(w)s } }
    fn to_leaf(&self) -> LeafVal { LeafVal::Str(self.0.clone()) }
    fn from_leaf(v: &LeafVal) -> Self { match v { LeafVal::Str(s) => %(n)s(s.clone()), _ => unreachable!() } }
}
leaf_model!(%(n)s);
""" % dict(a=", ".join(a), n=name, w=(ws or "preserve").capitalize())
    return Leaf(name, o)


class F:
    """A field. mode: elem attr text flatten; card: one opt many, and first last (types of the monitors' own)."""

    def __init__(self, name, ty, mode="elem", card="one", prefix=None, rename=None, default=False):
        self.name, self.ty, self.mode, self.card = name, ty, mode, card
        self.prefix, self.rename, self.default = prefix, rename, default

    local = property(lambda s: s.name if s.rename is None else s.rename)


class V:
    """A variant. ty None: unit."""

    def __init__(self, name, ty=None, card="one", prefix=None, rename=None, skip=None):
        self.name, self.ty, self.card = name, ty, card
        self.prefix, self.rename, self.skip = prefix, rename, skip

    local = property(lambda s: s.name if s.rename is None else s.rename)


def ns_of(t, prefix):
    if prefix is None:
        return ""
    if prefix == "xml":
        return XML_NS
    if prefix == "":
        return dict(t.nss).get("", "")
    return dict(t.nss)[prefix]


def wrap(card, t):
    return {"one": t, "opt": "Option<%s>" % t, "many": "Vec<%s>" % t, "first": "First<%s>" % t, "last": "Last<%s>" % t}[card]


def ty_expr(ty):
    if isinstance(ty, Leaf):
        return "Ty::Leaf(<%s as LeafModel>::leaf())" % ty.rust
    return "Ty::Node(<%s as NodeModel>::desc)" % ty.name


def rust_ty(ty):
    return ty.rust if isinstance(ty, Leaf) else ty.name


class Node:
    def __init__(self, name, nss=(), default_ns=None, prefix=None, rename=None, vis="pub"):
        self.name, self.nss, self.prefix, self.rename, self.vis = name, list(nss), prefix, rename, vis
        self.default_ns = default_ns
        if default_ns is not None:
            self.nss.append(("", default_ns))

    def head(self):
        a = []
        for p, u in self.nss:
            a.append("default_namespace = %s" % rs(u) if p == "" else "namespace = %s" % rs("%s: %s" % (p, u)))
        if self.prefix is not None:
            a.append("prefix = %s" % rs(self.prefix))
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        o = "#[derive(Debug, Deserialize, Serialize)]\n"
        if a:
            o += "#[static_xml(%s)]\n" % ", ".join(a)
        return o

    def desc_head(self):
        return "Desc { name: %s, root: (%s, %s), nss: &[%s], competing: %s, kind: " % (
            rs(self.name), rs(ns_of(self, self.prefix)), rs(self.rename or self.name),
            ", ".join("(%s, %s)" % (rs(p), rs(u)) for p, u in self.nss),
            "true" if self.competing() else "false")

    def competing(self):
        for c in (self.claims("elem"), self.claims("attr"), self.claims("text")):
            if len(set(c)) != len(c):
                return True
        return False


class Struct(Node):
    def __init__(self, name, fields, **kw):
        super().__init__(name, **kw)
        self.fields = fields

    def claims(self, mode):
        out = []
        for f in self.fields:
            if f.mode == "flatten":
                out += f.ty.claims(mode)
            elif f.mode == mode:
                out.append((ns_of(self, f.prefix), f.local) if mode != "text" else "text")
        return out

    def default_src(self):
        return ""

    def src(self):
        o = self.head() + "%s struct %s {\n" % (self.vis, self.name)
        for f in self.fields:
            a = []
            if f.mode == "attr":
                a.append("attribute")
            elif f.mode != "elem":
                a.append(f.mode)
            if f.default:
                a.append("default")
            if f.prefix is not None:
                a.append("prefix = %s" % rs(f.prefix))
            if f.rename is not None:
                a.append("rename = %s" % rs(f.rename))
            if a:
                o += "    #[static_xml(%s)]\n" % ", ".join(a)
            o += "    pub %s: %s,\n" % (ident(f.name), wrap(f.card, rust_ty(f.ty)))
        o += "}\n"
        o += "impl NodeModel for %s {\n    fn desc() -> &'static Desc {\n" % self.name
        o += "        static D: OnceLock<Desc> = OnceLock::new();\n        D.get_or_init(|| %s Kind::Struct(vec![\n" % self.desc_head()
        for f in self.fields:
            o += "            Field { name: %s, mode: Mode::%s, ns: %s, local: %s, card: Card::%s, default: %s, ty: %s },\n" % (
                rs(f.name), f.mode.capitalize(), rs("" if f.mode in ("text", "flatten") else ns_of(self, f.prefix)), rs(f.local),
                f.card.capitalize(),
                "Some(|| <%s as Default>::default().to_val())" % wrap(f.card, rust_ty(f.ty)) if f.default else "None",
                ty_expr(f.ty))
        o += "        ]) })\n    }\n}\nimpl Model for %s {\n" % self.name
        o += "    fn to_val(&self) -> Val { Val::Struct(vec![%s]) }\n" % ", ".join("self.%s.to_val()" % ident(f.name) for f in self.fields)
        o += "    fn from_val(v: &Val) -> Self { let Val::Struct(v) = v else { unreachable!() }; let _ = v; %s { %s } }\n}\n" % (
            self.name, ", ".join("%s: Model::from_val(&v[%d])" % (ident(f.name), i) for i, f in enumerate(self.fields)))
        return o


class Choice(Node):
    def __init__(self, name, variants, **kw):
        super().__init__(name, **kw)
        self.variants = variants

    def claims(self, mode):
        if mode != "elem":
            return []
        return [(ns_of(self, v.prefix), v.local) for v in self.variants if not v.skip]

    def src(self):
        o = self.head() + "#[allow(dead_code)]\n%s enum %s {\n" % (self.vis, self.name)
        for v in self.variants:
            a = []
            if v.skip:
                a.append("skip")
            if v.prefix is not None:
                a.append("prefix = %s" % rs(v.prefix))
            if v.rename is not None:
                a.append("rename = %s" % rs(v.rename))
            if a:
                o += "    #[static_xml(%s)]\n" % ", ".join(a)
            o += "    %s%s,\n" % (ident(v.name), "(%s)" % wrap(v.card, rust_ty(v.ty)) if v.ty else "")
        o += "}\n"
        o += "impl NodeModel for %s {\n    fn desc() -> &'static Desc {\n" % self.name
        o += "        static D: OnceLock<Desc> = OnceLock::new();\n        D.get_or_init(|| %s Kind::Choice(vec![\n" % self.desc_head()
        for v in self.variants:
            o += "            Variant { name: %s, ns: %s, local: %s, card: Card::%s, skip: %s, ty: %s },\n" % (
                rs(v.name), rs(ns_of(self, v.prefix)), rs(v.local), v.card.capitalize(),
                "true" if v.skip else "false", "Some(%s)" % ty_expr(v.ty) if v.ty else "None")
        o += "        ]) })\n    }\n}\nimpl Model for %s {\n    fn to_val(&self) -> Val { match self {\n" % self.name
        for i, v in enumerate(self.variants):
            o += "        Self::%s => Val::Choice(%d, %s),\n" % (
                ident(v.name) + ("(x)" if v.ty else ""), i, "Some(Box::new(x.to_val()))" if v.ty else "None")
        o += "    } }\n    fn from_val(v: &Val) -> Self { match v {\n"
        for i, v in enumerate(self.variants):
            o += "        Val::Choice(%d, %s) => Self::%s,\n" % (
                i, "Some(x)" if v.ty else "None", ident(v.name) + ("(Model::from_val(x))" if v.ty else ""))
        o += "        _ => unreachable!(),\n    } }\n}\n"
        return o


def fixed():
    L, N = [], []
    S = B["String"]
    size = restr("Size", "collapse", [("Small", "small"), ("Medium", "medium"), ("Large", None)], "Other", 1)
    flag = restr("Flag", None, [("On", None), ("Off", "off"), ("type", None), ("Blank", " ")])
    repl = restr("Repl", "replace", [("A", " a "), ("B", "b  c"), ("C", "")], "Rest")
    only = restr("OnlyUnknown", "collapse", [], "Any")
    stdp, stdr, stdc = std("StdPreserve", None), std("StdReplace", "replace"), std("StdCollapse", "collapse")
    u1 = union("Num", None, [("Small", B["u8"]), ("Signed", B["i16"]), ("Float", B["f64"])])
    u2 = union("Mixed", "collapse", [("Flag", flag), ("Bool", B["bool"]), ("Int", B["i32"]), ("Text", S)])
    u3 = union("Strict", "replace", [("Bool", B["bool"]), ("Flag", flag)])
    # What comes first wins, even if nothing after it can.
    u4 = union("StrFirst", None, [("Text", S), ("Int", B["i32"]), ("Flag", flag)])
    u5 = union("StrMid", "collapse", [("Float", B["f64"]), ("Text", S), ("Size", size), ("Bool", B["bool"])])
    u6 = union("Catch", "replace", [("Num", u1), ("Any", only), ("Flag", flag), ("Text", S)])
    unk = restr("UnkFirst", None, [("One", "1"), ("Two", None), ("match", "&<")], "Any", unknown_at=0)
    wide_r = restr("WideR", "collapse", [("V%d" % i, ["x", "xx", "val", "v-", "1"][i % 5] + str(i * 13 % 47)) for i in range(47)])
    L += [wide_r, size, flag, repl, only, stdp, stdr, stdc, u1, u2, u3, u4, u5, u6, unk]
    # Cardinalities, for elements and attributes.
    card = Struct("Cards", [
        F("one", S), F("opt", S, card="opt"), F("many", S, card="many"),
        F("dfl", size, default=True), F("dopt", S, card="opt", default=True), F("dmany", B["i32"], card="many", default=True),
        F("a_one", S, "attr"), F("a_opt", B["i32"], "attr", "opt"), F("a_dfl", size, "attr", default=True),
        F("a_dopt", B["bool"], "attr", "opt", default=True),
    ])
    N.append(card)
    # Namespaces: same local name, different URLs, elements and attributes.
    names = Struct("Names", [
        F("x", S, prefix=None), F("x_a", S, prefix="a", rename="x"), F("x_b", S, "elem", "opt", prefix="b", rename="x"),
        F("at", S, "attr", "opt", rename="x"), F("at_a", S, "attr", "opt", prefix="a", rename="x"),
        F("at_b", B["i32"], "attr", "opt", prefix="b", rename="x"),
        F("lang", S, "attr", "opt", prefix="xml"), F("many_b", S, card="many", prefix="b", rename="y"),
    ], nss=[("a", URLS[0]), ("b", URLS[1])], prefix="a", rename="names")
    N.append(names)
    dflt = Struct("Dflt", [
        F("e", S, prefix=""), F("n", S, card="opt"), F("q", B["u8"], "attr", "opt", prefix="", rename="e"),
        F("plain", S, "attr", "opt", rename="e"), F("sub", names, card="many", prefix=""),
    ], default_ns=URLS[1], prefix="", nss=[("foo2", URLS[2])])
    N.append(dflt)
    # Text.
    text = Struct("Texty", [F("b", S, card="many"), F("t", S, "text"), F("k", S, "attr", "opt")])
    num_text = Struct("NumText", [F("t", B["i32"], "text"), F("q", S, card="opt"), F("unit", size, "attr", default=True)])
    dfl_text = Struct("DflText", [F("t", size, "text", default=True), F("sub", text, card="opt")])
    N += [text, num_text, dfl_text]
    # Choices.
    c1 = Choice("C1", [V("A", S), V("B", B["i32"], "many"), V("C"), V("D", card, "opt", prefix="a"), V("E", text, rename="e-e")],
                nss=[("a", URLS[0])], rename="c1")
    c2 = Choice("C2", [V("X", S, prefix="z"), V("Y", names, "many"), V("Hidden", S, skip=True), V("Gone", skip=True), V("Z"),
                       V("A", S, "opt", prefix="z")], nss=[("z", URLS[1])])
    c3 = Choice("C3", [V("Fin", B["u8"], "opt"), V("Fout", flag, "many")])
    cdfl = Choice("CDfl", [V("A", S, prefix=""), V("A2", B["u16"], "opt", rename="A"), V("B", prefix="y"), V("C", size, "many", prefix="")],
                  default_ns=URLS[0], nss=[("y", URLS[3])], prefix="y")
    # No namespace, in three different ways.
    cnone = Choice("CNone", [V("A", S, prefix=""), V("B", prefix=""), V("M", B["u8"], "many", prefix="n"), V("Y", S, "many"), V("Z")],
                   default_ns="", nss=[("n", URLS[0])], prefix="")
    nodefault = Struct("NoDefault", [F("z", S, prefix=""), F("a", S, "elem", "opt"), F("at", S, "attr", "opt", prefix=""),
                                     F("pick", cnone, "flatten")], prefix="")
    N += [c1, c2, c3, cdfl, cnone, nodefault]
    # Flattening: choices and structs, nested, around own fields.
    inner = Struct("Inner", [F("in_attr", S, "attr"), F("in_elem", B["i32"], card="many", prefix="i"),
                             F("pick", c3, "flatten"), F("in_opt", S, card="opt")], nss=[("i", URLS[2])])
    outer = Struct("Outer", [
        F("before", S), F("f1", c1, "flatten"), F("mid", S, card="many"), F("f2", inner, "flatten"),
        F("own_attr", B["bool"], "attr", default=True), F("f3", c2, "flatten"), F("after", u2, card="opt"),
    ], nss=[("a", URLS[1])])
    textflat = Struct("TextFlat", [F("a", S), F("body", text, "flatten"), F("pick", c3, "flatten")])
    deep = Struct("Deep", [F("o", outer, "flatten"), F("t", num_text, "flatten"), F("last", S, "attr", "opt")])
    only_flat = Struct("OnlyFlat", [F("x", c2, "flatten"), F("y", c3, "flatten")])
    # Several which would take text.
    texta = Struct("TextA", [F("ta", S, "text"), F("ka", S, "attr", "opt")])
    textb = Struct("TextB", [F("kb", S, card="opt"), F("tb", S, "text")])
    two_texts = Struct("TwoTexts", [F("x", S, card="opt"), F("fa", texta, "flatten"), F("pick", c3, "flatten"), F("fb", textb, "flatten")])
    own_text = Struct("OwnText", [F("fb", textb, "flatten"), F("own", S, "text"), F("fa", texta, "flatten")])
    text_nest = Struct("TextNest", [F("first", textflat, "flatten"), F("rest", two_texts, "flatten")])
    N += [inner, outer, textflat, deep, only_flat, texta, textb, two_texts, own_text, text_nest]
    # Many flattened fields, the last of which takes text.
    fl = []
    for i in range(9):
        if i % 3 == 1:
            fl.append(Choice("Fl%d" % i, [V("Fla%d" % i, S), V("Flb%d" % i, B["u8"], "many"), V("Flc%d" % i)]))
        else:
            fl.append(Struct("Fl%d" % i, [F("fle%d" % i, S, card=["opt", "many"][i % 2]), F("fla%d" % i, B["i32"], "attr", "opt"),
                                          F("flb%d" % i, S, "attr", "opt" if i % 2 else "one")]))
    many_flat = Struct("ManyFlat", [F("own", S, card="opt")] + [F("p%d" % i, x, "flatten") for i, x in enumerate(fl)]
                       + [F("q0", texta, "flatten"), F("q1", inner, "flatten"), F("q2", textb, "flatten"), F("own_a", S, "attr", "opt")])
    N += fl + [many_flat]
    # Claims compete: the earlier field wins.
    comp = Struct("Competing", [
        F("own", S, card="opt", rename="A"), F("f1", c1, "flatten"), F("f2", inner, "flatten"),
        F("again", Struct("Again", []), "flatten"), F("in_attr", S, "attr", "opt"),
    ])
    again = comp.fields[3].ty
    again.fields = [F("in_elem", S, card="many", prefix="i"), F("B", S, card="many"), F("Fin", S, card="opt"),
                    F("own", S, card="opt", rename="A"), F("left", S, card="many"), F("x", S, "attr", "opt", rename="in_attr")]
    again.nss = [("i", URLS[2])]
    N += [again, comp]
    # Recursion, raw identifiers, odd names, empty types, visibility.
    tree = Struct("Tree", [F("type", S, "attr", "opt"), F("v", B["i64"], card="opt"), F("node", None, card="many", prefix="t")],
                  nss=[("t", URLS[0])], prefix="t", vis="pub(crate)")
    tree.fields[2].ty = tree
    raw = Struct("Raw", [F("match", S), F("fn", flag, "attr", "opt"), F("ref", None, card="many", rename="r\u00e9f-1.x")])
    empty = Struct("Empty", [])
    raw.fields[2].ty = empty
    rawc = Choice("RawC", [V("type"), V("move", S, "many"), V("loop_", S, rename="loop")])
    single = Struct("Single", [F("rawc", rawc, "flatten")], vis="pub(crate)")
    N += [tree, empty, raw, rawc, single]
    # Choices of one.
    solo = Choice("Solo", [V("A", S)])
    solo_many = Choice("SoloMany", [V("M", B["i32"], "many", prefix="s")], nss=[("s", URLS[0])])
    solo_opt = Choice("SoloOpt", [V("O", text, "opt")])
    solo_unit = Choice("SoloUnit", [V("U", rename="u-u")])
    solo_node = Choice("SoloNode", [V("N", card, "many"), V("Gone", S, skip=True)])
    solos = Struct("Solos", [F("s1", solo, "flatten"), F("x", S, card="opt"), F("s2", solo_many, "flatten"), F("s4", solo_unit, "flatten")])
    solos2 = Struct("Solos2", [F("k", S, "attr", "opt"), F("s3", solo_opt, "flatten"), F("s5", solo_node, "flatten"),
                               F("in_", solo_many, card="many"), F("opt_in", solo, card="opt")])
    N += [solo, solo_many, solo_opt, solo_unit, solo_node, solos, solos2]
    # Fields of types with their own ideas of repetition and absence.
    own = Struct("OwnTypes", [
        F("l", S, card="last"), F("f", size, card="first"), F("dl", B["i32"], card="last", default=True), F("df", size, card="first", default=True),
        F("al", S, "attr", "last"), F("af", B["u8"], "attr", "first", default=True), F("ad", size, "attr", "last", default=True),
        F("nl", text, card="last"), F("nf", text, card="first", prefix="o")], nss=[("o", URLS[1])])
    own_ch = Choice("OwnCh", [V("L", S, "last"), V("F", B["i32"], "first"), V("NF", card, "first"), V("NL", text, "last"), V("U")])
    own_flat = Struct("OwnFlat", [F("own", own_ch, "flatten"), F("in_", own, card="first"), F("l2", own_ch, card="last")])
    N += [own, own_ch, own_flat]
    # Large ones.
    wr = random.Random("wide")
    wnss = [("w%d" % i, u) for i, u in enumerate(URLS[:5])]
    wnames = ["n%d" % (i % 23) if i % 3 else "Na-%d" % (i // 2) for i in range(70)]
    keys, wide_f = set(), []
    for i, n in enumerate(wnames):
        k = (wr.choice([None] + [p for p, _ in wnss]), n)
        if k not in keys:
            keys.add(k)
            wide_f.append(F("e%d" % i, wr.choice([S, B["i32"], size, text]), card=wr.choice(["opt", "opt", "many"]), prefix=k[0], rename=n))
        k = (wr.choice([None] + [p for p, _ in wnss]), n, "a")
        if i < 45 and k not in keys:
            keys.add(k)
            wide_f.append(F("a%d" % i, wr.choice([S, B["bool"], size]), "attr", "opt", prefix=k[0], rename=n))
    wide = Struct("Wide", wide_f, nss=wnss)
    wide_ch = Choice("WideCh", [V("V%d" % i, wr.choice([S, B["u8"], None, flag]), "one", wr.choice([None, "w0", "w3"]),
                                  "alt%d" % (i * 7 % 40)) for i in range(40)], nss=wnss)
    wide_flat = Struct("WideFlat", [F("c", wide_ch, "flatten"), F("w", wide, "flatten"), F("last_one", S, card="opt")])
    huge = Struct("Huge", [F("f%d" % i, B["u16"], card="opt") for i in range(270)] + [F("at%d" % i, B["u16"], "attr", "opt") for i in range(40)])
    N += [wide, wide_ch, wide_flat, huge]
    # Every built-in text type in every place.
    every = Struct("Every", [F("e_" + l.rust.lower(), l, card=c) for l, c in zip(BUILTIN + L, ["one", "opt", "many"] * 20)]
                   + [F("a_" + l.rust.lower(), l, "attr", "opt") for l in BUILTIN + L])
    N.append(every)
    # Instrumented values in every position.
    T = TRACKED
    tleaf = Struct("TLeaf", [F("a", T, "attr"), F("e", T, card="opt"), F("t", T, "text"), F("m", T, card="many")])
    tch = Choice("TCh", [V("P", T), V("Q", T, "many"), V("R", tleaf), V("S", tleaf, "opt"), V("U")])
    tch2 = Choice("TCh2", [V("P2", T), V("Q2", tleaf, "many")])
    tflat = Struct("TFlat", [F("fa", T, "attr"), F("fe", T), F("ff", tch2, "flatten"), F("fm", tleaf, card="many")])
    tall = Struct("TAll", [
        F("a1", T, "attr"), F("a2", T, "attr", "opt"), F("a3", T, "attr", default=True),
        F("e1", T), F("e2", T, card="opt"), F("e3", T, card="many"), F("e4", T, default=True),
        F("n1", tleaf), F("n2", tleaf, card="opt"), F("n3", tleaf, card="many"),
        F("fl1", tflat, "flatten"), F("fl2", tch, "flatten"), F("z", T),
    ])
    trec = Struct("TRec", [F("v", T, "attr"), F("k", None, card="many"), F("c", tch, card="opt"), F("w", T)])
    trec.fields[1].ty = trec
    town = Struct("TOwn", [F("l", T, card="last"), F("f", tleaf, card="first"), F("dl", T, card="last", default=True), F("al", T, "attr", "last"),
                           F("c", Choice("TOwnCh", [V("L", tleaf, "last"), V("F", T, "first")]), "flatten")])
    tsolo = Choice("TSolo", [V("P", T, "many")])
    N += [tleaf, tch, tch2, tflat, tall, trec, town.fields[4].ty, town, tsolo]
    return L, N


IDENTS = ["a", "b", "c", "item", "Name", "x1", "value", "type", "list_", "Q"]
# Names with a meaning elsewhere; the driver adds those the code under test mentions.
WORDS = ["nil", "type", "lang", "base", "schemaLocation", "href", "include", "content", "key", "version", "null", "class",
         "ref", "length", "count", "Fault", "Body", "self", "crate", "Self", "super"]
RENAMES = ["foo-bar", "x.y", "\u00e9lan", "a", "b", "Item", "_u", "name"]


def rand_types(rng, count, prefix, leafs, tracked_bias):
    out = []

    def leaf():
        if rng.random() < tracked_bias:
            return TRACKED
        return rng.choice(leafs) if rng.random() < 0.4 else rng.choice(BUILTIN[:8] if rng.random() < 0.7 else BUILTIN)

    def any_ty(self):
        if out and rng.random() < 0.35:
            return rng.choice(out)
        return leaf()

    def nss():
        ps = rng.sample(["p", "q", "ns1", "foo2", "zz"], rng.randint(0, 3))
        n = [(p, rng.choice(URLS)) for p in ps]
        d = rng.choice(URLS + [""]) if rng.random() < 0.25 else None
        return n, d

    def pick_prefix(n, d, attr=False):
        # xml-rs refuses to read elements with the prefix xml.
        c = [None, None] + [p for p, _ in n] * 2 + ([""] * 2 if d is not None else [""] * (rng.random() < 0.1)) + (["xml"] if attr and rng.random() < 0.1 else [])
        return rng.choice(c)

    for i in range(count):
        name = "%s%d" % (prefix, i)
        n, d = nss()
        kw = dict(nss=n, default_ns=d, vis="pub" if rng.random() < 0.8 else "pub(crate)")
        kw["prefix"] = rng.choice([None] + [p for p, _ in n] + ([""] if d is not None else []))
        if rng.random() < 0.3:
            kw["rename"] = rng.choice(RENAMES)
        allow_comp = rng.random() < 0.12
        used = {"elem": set(), "attr": set(), "text": set()}
        t = Node(name, **kw)  # for ns_of

        def claim(mode, key):
            if key in used[mode]:
                return False
            used[mode].add(key)
            return True

        if rng.random() < 0.28:
            vs = []
            names = set()
            for _ in range(rng.randint(1, 6)):
                vn = rng.choice(IDENTS)
                if vn in names:
                    continue
                pr, rn = pick_prefix(n, d), (rng.choice(RENAMES) if rng.random() < 0.4 else None)
                sk = rng.random() < 0.12 and bool(vs)
                v = V(vn, None if rng.random() < 0.25 else any_ty(None), rng.choice(["one", "one", "opt", "many"]), pr, rn, sk)
                if v.skip:
                    v.ty, v.card = (leaf() if rng.random() < .5 else None), "one"
                if not v.skip and not claim("elem", (ns_of(t, pr), v.local)):
                    continue
                names.add(vn)
                vs.append(v)
            if vs and any(not v.skip for v in vs):
                out.append(Choice(name, vs, **kw))
                continue
        fs = []
        names = set()
        # Flattened fields first, so that own names can avoid theirs.
        flats = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if not out:
                break
            ft = rng.choice(out)
            cl = {m: ft.claims(m) for m in used}
            if any(k in used[m] for m in used for k in cl[m]) and not allow_comp:
                continue
            if ft.competing():
                continue
            for m in used:
                used[m].update(cl[m])
            flats.append(ft)
        own_claims = {m: set() for m in used}
        for _ in range(rng.randint(0, 7)):
            mode = rng.choice(["elem"] * 5 + ["attr"] * 3)
            fn = rng.choice(IDENTS)
            if fn in names:
                continue
            pr, rn = pick_prefix(n, d, mode == "attr"), (rng.choice(RENAMES) if rng.random() < 0.4 else None)
            f = F(fn, None, mode, "one", pr, rn)
            if mode == "elem":
                rec = rng.random() < 0.08
                f.card = "many" if rec else rng.choice(["one", "opt", "many"]) if rng.random() < 0.95 else rng.choice(["first", "last"])
                f.ty = "self" if rec else any_ty(None)
            else:
                f.card = rng.choice(["one", "opt", "opt"])
                f.ty = leaf()
            if isinstance(f.ty, Leaf):
                f.default = rng.random() < 0.2
            key = (ns_of(t, pr), f.local)
            if key in own_claims[mode]:
                continue
            if key in used[mode] and not allow_comp:
                continue
            own_claims[mode].add(key)
            used[mode].add(key)
            names.add(fn)
            fs.append(f)
        if "text" not in used["text"] and rng.random() < 0.2:
            fs.append(F("txt", leaf(), "text", default=rng.random() < 0.2))
        for k, ft in enumerate(flats):
            fs.append(F("fl%d" % k, ft, "flatten"))
        rng.shuffle(fs)
        s = Struct(name, fs, **kw)
        for f in fs:
            if f.ty == "self":
                f.ty = s
        out.append(s)
    return out


def rand_leafs(rng, L, words):
    """Random restrictions, std types and unions."""
    out = []
    texts = ["", " ", "a", "A", "a b", "a  b", " a", "b ", "a\tb", "\n", "0", "1", "true", "-1", "\u00e9", "a\u0301", "]]>", "&amp;", "<",
             "x-y", "\u2003", "yes", "1.0", "NaN"]
    for i in range(6):
        vs, seen = [], set()
        for n in rng.sample(["A", "B", "c", "type", "Fn", "loop", "X1", "True", "N_"], rng.randint(0 if i % 2 else 1, 5)):
            t = None if rng.random() < 0.3 else rng.choice(texts) if rng.random() < 0.6 else rng.choice(words)
            if (n if t is None else t) not in seen:
                seen.add(n if t is None else t)
                vs.append((n, t))
        unk = "Unk" if rng.random() < 0.5 or not vs else None
        out.append(restr("Lr%d" % i, rng.choice([None, "preserve", "replace", "collapse"]), vs, unk,
                         rng.randrange(len(vs)) if vs else 0, rng.randint(0, len(vs))))
    for i in range(5):
        of = [rng.choice(BUILTIN if rng.random() < 0.5 else L + out) for _ in range(rng.randint(1, 5))]
        out.append(union("Lu%d" % i, rng.choice([None, "preserve", "replace", "collapse"]), [("V%d" % k, l) for k, l in enumerate(of)]))
    return out


def generate(seed, count, tracked, words=()):
    L, N = fixed()
    rng = random.Random("types:%d" % seed)
    words = [w for w in words if len(w) <= 40] + WORDS
    L += rand_leafs(rng, L, words)
    del IDENTS[10:], RENAMES[8:]
    RENAMES.extend(rng.sample(words, min(6, len(words))))
    R = rand_types(rng, count, "R", L, 0.06)
    T = rand_types(rng, tracked, "T", L, 0.7)
    o = "// Generated by gen/gentypes.py; do not edit.\n"
    o += "#![allow(dead_code, non_snake_case, non_camel_case_types, unreachable_patterns)]\n" if False else ""
    for l in L:
        o += l.src
    allN = N + R + T
    for n in allN:
        o += n.src()
    o += "pub fn registry() -> Vec<Entry> { vec![\n"
    for n in allN:
        o += "    entry::<%s>(),\n" % n.name
    o += "] }\npub fn leaf_registry() -> Vec<LeafEntry> { vec![\n"
    for l in BUILTIN + L:
        o += "    leaf_entry::<%s>(%s),\n" % (l.rust, rs(l.rust))
    o += "] }\n"
    return o


if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])))
