//! Two visitors for one place.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml::de::{Deserialize, ElementReader, RawDeserialize, RawDeserializeVisitor, VisitorError};

#[derive(static_xml_derive::Deserialize)]
struct Part {
    part: Vec<String>,
}

struct Two;

impl Deserialize for Two {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut out = std::mem::MaybeUninit::<Part>::uninit();
        let mut v = <Part as RawDeserialize>::Visitor::new(&mut out);
        let w = <Part as RawDeserialize>::Visitor::new(&mut out);
        e.read_to(&mut v)?;
        w.finalize(None)?;
        v.finalize(None)?;
        Ok(Two)
    }
}

fn main() {
    println!("{}", static_xml::de::from_str::<Two>("<x><part>1</part></x>").is_ok());
}
