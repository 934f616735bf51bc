//! Types with unusual layouts.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml_derive::{Deserialize, ParseText};

#[derive(Deserialize, Debug)]
#[repr(packed)]
struct Bytes {
    a: u8,
    b: bool,
    #[static_xml(attribute)]
    c: Option<i8>,
}

#[derive(Debug, Default, ParseText)]
#[static_xml(mode = "std")]
#[repr(align(64))]
struct Wide(u8);

impl std::str::FromStr for Wide {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Wide(s.parse()?))
    }
}

#[derive(Debug, Default, ParseText)]
#[static_xml(mode = "std")]
struct Nothing;

impl std::str::FromStr for Nothing {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<u8>().map(|_| Nothing).or_else(|e| if s.is_empty() { Ok(Nothing) } else { Err(e) })
    }
}

#[derive(Debug, ParseText)]
#[static_xml(mode = "std")]
struct Big([u8; 3000]);

impl std::str::FromStr for Big {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Big([s.parse()?; 3000]))
    }
}

#[derive(Deserialize, Debug)]
#[repr(C)]
struct Mixed {
    a: u8,
    b: Wide,
    c: Vec<Nothing>,
    d: Option<Big>,
    #[static_xml(attribute, default)]
    e: Wide,
    #[static_xml(attribute)]
    f: Option<Nothing>,
    #[static_xml(flatten)]
    g: Pick,
    #[static_xml(flatten)]
    h: Empty,
    #[static_xml(text)]
    i: Wide,
}

#[derive(Deserialize, Debug)]
enum Pick {
    W(Wide),
    B(Big),
    N(Nothing),
    M(Vec<Wide>),
    U,
}

#[derive(Deserialize, Debug)]
struct Empty {}

#[derive(Deserialize, Debug)]
enum Only {
    U,
}

fn main() {
    let docs = [
        "<x f=''>7<a>1</a><b>2</b><c/><c/><d>3</d><M>1</M><M>2</M><M>3</M></x>",
        "<x e='9'><a>1</a><b>2</b><c/><B>4</B>7</x>",
        "<x e='9'><a>1</a><b>2</b><c/><B>4</B></x>",
        "<x c='1'>7<a>1</a><b>true</b><N/></x>",
        "<x><a>1</a><b>2</b><d>3</d><d>4</d></x>",
        "<x><a>1</a><b>2</b><c>5</c></x>",
        "<x><U/></x>",
        "<x/>",
    ];
    let mut ok = 0;
    for d in docs {
        ok += static_xml::de::from_str::<Bytes>(d).is_ok() as u8;
        ok += static_xml::de::from_str::<Mixed>(d).is_ok() as u8;
        ok += static_xml::de::from_str::<Pick>(d).is_ok() as u8;
        ok += static_xml::de::from_str::<Empty>(d).is_ok() as u8;
        ok += static_xml::de::from_str::<Only>(d).is_ok() as u8;
    }
    println!("{}", ok);
}
