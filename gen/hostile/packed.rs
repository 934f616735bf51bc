//! Fields that aren't aligned.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml_derive::Deserialize;

#[derive(Deserialize)]
struct Part {
    #[static_xml(attribute)]
    k: Option<u64>,
    part: Vec<String>,
}

#[derive(Deserialize)]
#[repr(C, packed)]
struct All {
    a: u8,
    b: Option<u64>,
    c: Vec<String>,
    #[static_xml(attribute)]
    d: u32,
    #[static_xml(flatten)]
    e: Part,
    #[static_xml(text)]
    f: String,
}

fn main() {
    let r = static_xml::de::from_str::<All>("<x d='1' k='2'>t<a>1</a><b>2</b><c>x</c><c>y</c><part>p</part></x>");
    println!("{}", r.is_ok());
    println!("{}", static_xml::de::from_str::<All>("<x d='1' k='2'>t<b>2</b><c>x</c><part>p</part></x>").is_ok());
}
