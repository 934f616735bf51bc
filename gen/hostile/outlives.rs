//! A visitor that outlives what it writes to.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml::de::{Deserialize, ElementReader, RawDeserialize, RawDeserializeVisitor, VisitorError};

#[derive(static_xml_derive::Deserialize)]
struct Part {
    part: Vec<String>,
}

struct Late;

impl Deserialize for Late {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v;
        {
            let mut out = Box::new(std::mem::MaybeUninit::<Part>::uninit());
            v = <Part as RawDeserialize>::Visitor::new(&mut out);
        }
        e.read_to(&mut v)?;
        v.finalize(None)?;
        Ok(Late)
    }
}

fn main() {
    println!("{}", static_xml::de::from_str::<Late>("<x><part>1</part></x>").is_ok());
}
