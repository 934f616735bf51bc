//! The monitors' view of types and values, independent of the derive macros.

use static_xml::de::{Deserialize, DeserializeAttrField, DeserializeElementField, ElementReader, Error, ParseText, VisitorError};
use static_xml::ser::{ElementBuilder, ElementWriter, Serialize, SerializeAttr, SerializeField, SerializeRoot, ToText};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Ws {
    Preserve,
    Replace,
    Collapse,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Card {
    One,
    Opt,
    Many,
    /// `First<T>` and `Last<T>`.
    First,
    Last,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Mode {
    Elem,
    Attr,
    Text,
    Flatten,
}

#[derive(Clone, Debug)]
pub enum Leaf {
    String,
    Bool,
    /// Signed, bits.
    Int(bool, u32),
    Float(u32),
    Restr { name: &'static str, ws: Ws, known: &'static [&'static str], unknown: bool },
    Union { name: &'static str, ws: Ws, of: Vec<Leaf> },
    Std { ws: Ws },
    Tracked,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LeafVal {
    Str(String),
    Bool(bool),
    Int(i128),
    Uint(u128),
    /// Bits, with a canonical NaN.
    Float(u64),
    Variant(usize),
    Union(usize, Box<LeafVal>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Struct(Vec<Val>),
    Choice(usize, Option<Box<Val>>),
    Leaf(LeafVal),
    Opt(Option<Box<Val>>),
    Many(Vec<Val>),
}

pub struct Desc {
    pub name: &'static str,
    pub root: (&'static str, &'static str),
    pub nss: &'static [(&'static str, &'static str)],
    pub competing: bool,
    pub kind: Kind,
}

pub enum Kind {
    Struct(Vec<Field>),
    Choice(Vec<Variant>),
}

pub struct Field {
    pub name: &'static str,
    pub mode: Mode,
    pub ns: &'static str,
    pub local: &'static str,
    pub card: Card,
    pub default: Option<fn() -> Val>,
    pub ty: Ty,
}

pub struct Variant {
    pub name: &'static str,
    pub ns: &'static str,
    pub local: &'static str,
    pub card: Card,
    pub skip: bool,
    pub ty: Option<Ty>,
}

pub enum Ty {
    Leaf(Leaf),
    Node(fn() -> &'static Desc),
}

pub trait Model {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

pub trait LeafModel {
    fn leaf() -> Leaf;
    fn to_leaf(&self) -> LeafVal;
    fn from_leaf(v: &LeafVal) -> Self;
}

pub trait NodeModel {
    fn desc() -> &'static Desc;
}

#[macro_export]
macro_rules! leaf_model {
    ($t:ty) => {
        impl Model for $t {
            fn to_val(&self) -> Val {
                Val::Leaf(self.to_leaf())
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::Leaf(l) => <$t as LeafModel>::from_leaf(l),
                    _ => unreachable!(),
                }
            }
        }
    };
}

impl<T: Model> Model for Option<T> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|v| T::from_val(v)),
            _ => unreachable!(),
        }
    }
}

impl<T: Model> Model for Vec<T> {
    fn to_val(&self) -> Val {
        Val::Many(self.iter().map(|v| v.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Many(o) => o.iter().map(|v| T::from_val(v)).collect(),
            _ => unreachable!(),
        }
    }
}

/// Field types of the monitors' own: of several occurrences the first or the last counts; none is fine, and not the same
/// as the default.
#[derive(Debug)]
pub struct First<T>(pub Option<T>);
#[derive(Debug)]
pub struct Last<T>(pub Option<T>);

macro_rules! own_field {
    ($t:ident, |$this:ident, $e:ident| $update:expr) => {
        impl<T: Default> Default for $t<T> {
            fn default() -> Self {
                $t(Some(T::default()))
            }
        }
        impl<T: Deserialize> DeserializeElementField for $t<T> {
            fn init(element: ElementReader<'_>) -> Result<Self, VisitorError> {
                Ok($t(Some(T::deserialize(element)?)))
            }
            fn update(&mut self, element: ElementReader<'_>) -> Result<(), VisitorError> {
                let ($this, $e) = (self, element);
                $update
            }
            fn missing(_: &static_xml::ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
                Ok($t(None))
            }
        }
        impl<T: ParseText> DeserializeAttrField for $t<T> {
            fn init(value: String) -> Result<Self, VisitorError> {
                Ok($t(Some(T::parse(value).map_err(VisitorError::Wrap)?)))
            }
            fn missing(_: &static_xml::ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
                Ok($t(None))
            }
        }
        impl<T: Serialize> SerializeField for $t<T> {
            fn write<'a>(
                &self,
                parent: &mut ElementWriter<'a>,
                name: static_xml::ExpandedNameRef<'a>,
            ) -> Result<(), static_xml::ser::Error> {
                SerializeField::write(&self.0, parent, name)
            }
        }
        impl<T: ToText> SerializeAttr for $t<T> {
            fn write<'a>(
                &self,
                builder: &mut ElementBuilder<'a>,
                name: static_xml::ExpandedNameRef<'a>,
            ) -> Result<(), static_xml::ser::Error> {
                SerializeAttr::write(&self.0, builder, name)
            }
        }
        impl<T: Model> Model for $t<T> {
            fn to_val(&self) -> Val {
                self.0.to_val()
            }
            fn from_val(v: &Val) -> Self {
                $t(Model::from_val(v))
            }
        }
    };
}

// Doesn't even look at the others.
own_field!(First, |_this, _e| Ok(()));
own_field!(Last, |this, e| {
    this.0 = Some(T::deserialize(e)?);
    Ok(())
});

macro_rules! builtin {
    ($t:ident, $leaf:expr, $to:expr, $p:pat => $from:expr) => {
        impl LeafModel for $t {
            fn leaf() -> Leaf {
                $leaf
            }
            fn to_leaf(&self) -> LeafVal {
                let f: fn(&$t) -> LeafVal = $to;
                f(self)
            }
            fn from_leaf(v: &LeafVal) -> Self {
                match v {
                    $p => $from,
                    _ => unreachable!(),
                }
            }
        }
        leaf_model!($t);
    };
}

pub fn canon(f: f64) -> u64 {
    if f.is_nan() { f64::NAN.to_bits() & !(1 << 63) } else { f.to_bits() }
}

builtin!(String, Leaf::String, |s| LeafVal::Str(s.clone()), LeafVal::Str(s) => s.clone());
builtin!(bool, Leaf::Bool, |s| LeafVal::Bool(*s), LeafVal::Bool(b) => *b);
builtin!(i8, Leaf::Int(true, 8), |s| LeafVal::Int(*s as i128), LeafVal::Int(i) => *i as i8);
builtin!(i16, Leaf::Int(true, 16), |s| LeafVal::Int(*s as i128), LeafVal::Int(i) => *i as i16);
builtin!(i32, Leaf::Int(true, 32), |s| LeafVal::Int(*s as i128), LeafVal::Int(i) => *i as i32);
builtin!(i64, Leaf::Int(true, 64), |s| LeafVal::Int(*s as i128), LeafVal::Int(i) => *i as i64);
builtin!(i128, Leaf::Int(true, 128), |s| LeafVal::Int(*s), LeafVal::Int(i) => *i);
builtin!(u8, Leaf::Int(false, 8), |s| LeafVal::Uint(*s as u128), LeafVal::Uint(i) => *i as u8);
builtin!(u16, Leaf::Int(false, 16), |s| LeafVal::Uint(*s as u128), LeafVal::Uint(i) => *i as u16);
builtin!(u32, Leaf::Int(false, 32), |s| LeafVal::Uint(*s as u128), LeafVal::Uint(i) => *i as u32);
builtin!(u64, Leaf::Int(false, 64), |s| LeafVal::Uint(*s as u128), LeafVal::Uint(i) => *i as u64);
builtin!(u128, Leaf::Int(false, 128), |s| LeafVal::Uint(*s), LeafVal::Uint(i) => *i);
// f32 values are compared as the f64 they convert to, which is exact.
builtin!(f32, Leaf::Float(32), |s| LeafVal::Float(canon(*s as f64)), LeafVal::Float(f) => f64::from_bits(*f) as f32);
builtin!(f64, Leaf::Float(64), |s| LeafVal::Float(canon(*s)), LeafVal::Float(f) => f64::from_bits(*f));

/// XML white space, and nothing else.
pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn trim_ws(s: &str) -> &str {
    s.trim_matches(is_ws)
}

/// Reference for white space normalization, by the definition in XML Schema part 1.
pub fn normalize_ref(s: &str, ws: Ws) -> String {
    match ws {
        Ws::Preserve => s.to_owned(),
        Ws::Replace => s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect(),
        Ws::Collapse => {
            let mut o = String::new();
            let mut pending = false;
            for c in s.chars() {
                if is_ws(c) {
                    pending = !o.is_empty();
                } else {
                    if pending {
                        o.push(' ');
                        pending = false;
                    }
                    o.push(c);
                }
            }
            o
        }
    }
}

fn int_syntax(t: &str, signed: bool) -> Option<(bool, &str)> {
    let (neg, digits) = match t.as_bytes().first()? {
        b'+' => (false, &t[1..]),
        b'-' if signed => (true, &t[1..]),
        _ => (false, t),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some((neg, digits.trim_start_matches('0')))
}

fn magnitude(digits: &str) -> Option<u128> {
    let mut v: u128 = 0;
    for b in digits.bytes() {
        v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?;
    }
    Some(v)
}

/// Reference for parsing text.
pub fn parse_leaf(l: &Leaf, s: &str) -> Result<LeafVal, String> {
    match l {
        Leaf::String => Ok(LeafVal::Str(s.to_owned())),
        Leaf::Bool => match trim_ws(s) {
            "true" | "1" => Ok(LeafVal::Bool(true)),
            "false" | "0" => Ok(LeafVal::Bool(false)),
            _ => Err(format!("bool {:?}", s)),
        },
        Leaf::Int(signed, bits) => {
            let e = || format!("int {:?}", s);
            let (neg, digits) = int_syntax(trim_ws(s), *signed).ok_or_else(e)?;
            let m = magnitude(digits).ok_or_else(e)?;
            if *signed {
                let max = (1u128 << (bits - 1)) - 1;
                if m > if neg { max + 1 } else { max } {
                    return Err(e());
                }
                Ok(LeafVal::Int(if neg { (m as i128).wrapping_neg() } else { m as i128 }))
            } else {
                if *bits < 128 && m >= 1u128 << bits {
                    return Err(e());
                }
                Ok(LeafVal::Uint(m))
            }
        }
        Leaf::Float(bits) => {
            let t = trim_ws(s);
            let v = if *bits == 32 { t.parse::<f32>().map(|f| f as f64) } else { t.parse::<f64>() };
            v.map(|f| LeafVal::Float(canon(f))).map_err(|_| format!("float {:?}", s))
        }
        Leaf::Restr { ws, known, unknown, .. } => {
            let t = normalize_ref(s, *ws);
            match known.iter().position(|k| *k == t) {
                Some(i) => Ok(LeafVal::Variant(i)),
                None if *unknown => Ok(LeafVal::Str(t)),
                None => Err(format!("restriction {:?}", t)),
            }
        }
        Leaf::Union { ws, of, .. } => {
            let t = normalize_ref(s, *ws);
            for (i, l) in of.iter().enumerate() {
                if let Ok(v) = parse_leaf(l, &t) {
                    return Ok(LeafVal::Union(i, Box::new(v)));
                }
            }
            Err(format!("union {:?}", t))
        }
        Leaf::Std { ws } => {
            let t = normalize_ref(s, *ws);
            if t.contains("bad") { Err(format!("std {:?}", t)) } else { Ok(LeafVal::Str(t)) }
        }
        Leaf::Tracked => {
            if s.contains("!fail") { Err(format!("tracked {:?}", s)) } else { Ok(LeafVal::Str(s.to_owned())) }
        }
    }
}

/// Reference for printing text.
pub fn print_leaf(l: &Leaf, v: &LeafVal) -> String {
    match (l, v) {
        (Leaf::Restr { known, .. }, LeafVal::Variant(i)) => known[*i].to_owned(),
        (Leaf::Union { of, .. }, LeafVal::Union(i, v)) => print_leaf(&of[*i], v),
        (_, LeafVal::Str(s)) => s.clone(),
        (_, LeafVal::Bool(b)) => (if *b { "true" } else { "false" }).to_owned(),
        (_, LeafVal::Int(i)) => i.to_string(),
        (_, LeafVal::Uint(i)) => i.to_string(),
        (Leaf::Float(32), LeafVal::Float(f)) => (f64::from_bits(*f) as f32).to_string(),
        (_, LeafVal::Float(f)) => f64::from_bits(*f).to_string(),
        _ => unreachable!("{:?} {:?}", l, v),
    }
}

#[derive(Debug)]
pub struct ProbeError(pub String);
impl std::fmt::Display for ProbeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ProbeError({})", self.0)
    }
}
impl std::error::Error for ProbeError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&ProbeCause)
    }
}

/// What caused a `ProbeError`.
#[derive(Debug)]
pub struct ProbeCause;
impl std::fmt::Display for ProbeCause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ProbeCause")
    }
}
impl std::error::Error for ProbeCause {}

/// Options of the serializer.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Opts {
    pub indent: bool,
    pub declaration: bool,
}

impl Opts {
    pub const DEFAULT: Opts = Opts { indent: false, declaration: true };
    pub const ALL: [Opts; 4] = [
        Opts { indent: false, declaration: true },
        Opts { indent: true, declaration: true },
        Opts { indent: false, declaration: false },
        Opts { indent: true, declaration: false },
    ];
}

/// Type-erased access to one derived element type.
#[derive(Copy, Clone)]
pub struct Entry {
    pub name: &'static str,
    pub desc: fn() -> &'static Desc,
    /// Reads, converting the value to the model.
    pub read: fn(&mut dyn std::io::Read) -> Result<Val, Error>,
    pub read_str: fn(&str) -> Result<Val, Error>,
    /// Reads and keeps the value (to observe when it is dropped).
    pub read_keep: fn(&mut dyn std::io::Read) -> Result<Box<dyn std::any::Any>, Error>,
    pub keep_val: fn(&dyn std::any::Any) -> Val,
    pub write: fn(&Val, Opts, &mut dyn std::io::Write) -> Result<(), static_xml::ser::Error>,
    pub write_string: fn(&Val, Option<Opts>) -> Result<String, static_xml::ser::Error>,
    /// Serializes as an element with the given name.
    pub write_named: fn(&Val, (&str, &str), Opts) -> Result<String, static_xml::ser::Error>,
    /// Passes a borrowed serializable value.
    pub with: fn(&Val, &mut dyn FnMut(&dyn Serialize)),
    /// Runs `Deserialize` for a nested element, for hand-written visitors.
    pub nested: fn(static_xml::de::ElementReader<'_>) -> Result<Val, VisitorError>,
}

pub fn entry<T>() -> Entry
where
    T: NodeModel + Model + Deserialize + Serialize + SerializeRoot + 'static,
{
    /// The last call of each counts, in whichever order they come.
    fn opts<'a>(s: static_xml::ser::Serializer<'a>, o: Opts) -> static_xml::ser::Serializer<'a> {
        thread_local! {
            static CALLS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        let n = CALLS.with(|c| c.replace(c.get() + 1));
        match n / 3 % 7 {
            0 => s.write_document_declaration(o.declaration).perform_indent(o.indent),
            1 => s
                .perform_indent(!o.indent)
                .write_document_declaration(!o.declaration)
                .perform_indent(o.indent)
                .write_document_declaration(o.declaration),
            2 => s
                .write_document_declaration(!o.declaration)
                .write_document_declaration(o.declaration)
                .perform_indent(!o.indent)
                .perform_indent(o.indent),
            3 if o == Opts::DEFAULT => s,
            _ => s.perform_indent(o.indent).write_document_declaration(o.declaration),
        }
    }
    Entry {
        name: T::desc().name,
        desc: T::desc,
        read: |r| static_xml::read::<_, T>(r).map(|v| v.to_val()),
        read_str: |s| static_xml::de::from_str::<T>(s).map(|v| v.to_val()),
        read_keep: |r| static_xml::read::<_, T>(r).map(|v| Box::new(v) as Box<dyn std::any::Any>),
        keep_val: |a| a.downcast_ref::<T>().unwrap().to_val(),
        write: |v, o, w| opts(static_xml::serialize(&T::from_val(v)), o).to(w),
        write_string: |v, o| {
            let v = T::from_val(v);
            let s = static_xml::serialize(&v);
            match o {
                Some(o) => opts(s, o).to_string(),
                None => s.to_string(),
            }
        },
        write_named: |v, (ns, local), o| {
            let v = T::from_val(v);
            let name = static_xml::ExpandedNameRef { namespace: ns, local_name: local };
            opts(static_xml::serialize_with_name(&v, name), o).to_string()
        },
        with: |v, f| f(&T::from_val(v)),
        nested: |e| T::deserialize(e).map(|v| v.to_val()),
    }
}

#[derive(Clone)]
pub struct LeafEntry {
    pub name: &'static str,
    pub leaf: Leaf,
    pub parse: fn(String) -> Result<LeafVal, static_xml::BoxedStdError>,
    pub print: fn(&LeafVal) -> Result<String, static_xml::ser::Error>,
    pub read: fn(&mut dyn std::io::Read) -> Result<LeafVal, Error>,
}

pub fn leaf_entry<T>(name: &'static str) -> LeafEntry
where
    T: LeafModel + ParseText + ToText + 'static,
{
    LeafEntry {
        name,
        leaf: T::leaf(),
        parse: |s| T::parse(s).map(|v| v.to_leaf()),
        print: |v| T::from_leaf(v).to_text(),
        read: |r| static_xml::read::<_, T>(r).map(|v| v.to_leaf()),
    }
}
