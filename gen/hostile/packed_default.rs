//! Defaults that aren't aligned.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml_derive::Deserialize;

#[derive(Deserialize)]
#[repr(packed)]
struct E {
    #[static_xml(default)]
    a: u64,
    #[static_xml(default)]
    b: bool,
    #[static_xml(attribute, default)]
    c: u128,
}

fn main() {
    for t in ["<x a='1'>5</x>", "<x/>", "<x c='5'><a>4</a></x>"] {
        println!("{}", static_xml::de::from_str::<E>(t).is_ok());
    }
}
