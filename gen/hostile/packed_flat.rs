//! Flattened fields that aren't aligned.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml_derive::Deserialize;

#[derive(Deserialize)]
struct Part {
    part: Vec<u64>,
}

#[derive(Deserialize)]
enum Pick {
    A(u64),
    B,
}

#[derive(Deserialize)]
#[repr(packed)]
struct S {
    a: u8,
    #[static_xml(flatten)]
    p: Part,
    #[static_xml(flatten)]
    q: Pick,
}

fn main() {
    for t in ["<x><a>1</a><part>1</part><A>2</A></x>", "<x/>", "<x><part>1</part><part>2</part><A>1</A></x>"] {
        println!("{}", static_xml::de::from_str::<S>(t).is_ok());
    }
}
