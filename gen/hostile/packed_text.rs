//! A text that isn't aligned.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml_derive::Deserialize;

#[derive(Deserialize)]
#[repr(packed)]
struct T {
    #[static_xml(attribute)]
    a: u8,
    #[static_xml(text)]
    t: u64,
}

#[derive(Deserialize)]
#[repr(packed(2))]
struct D {
    #[static_xml(attribute)]
    a: u8,
    #[static_xml(text, default)]
    t: f64,
}

fn main() {
    for t in ["<x a='1'>5</x>", "<x a='1'/>", "<x>5</x>", "<x a='1'>x</x>"] {
        println!("{} {}", static_xml::de::from_str::<T>(t).is_ok(), static_xml::de::from_str::<D>(t).is_ok());
    }
}
