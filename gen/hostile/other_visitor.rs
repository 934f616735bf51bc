//! A type read by a visitor for another.
#![forbid(unsafe_code)]
#![allow(dead_code)]

#[derive(static_xml_derive::Deserialize)]
struct Small {
    a: u8,
}

#[derive(Debug)]
struct Large {
    a: [String; 4],
}

type Other<'a> = <Small as static_xml::de::RawDeserialize<'a>>::Visitor;
static_xml::impl_deserialize_via_raw!(Large, Other);

fn main() {
    println!("{:?}", static_xml::de::from_str::<Large>("<x><a>1</a></x>").map(|l| l.a.len()).is_ok());
}
