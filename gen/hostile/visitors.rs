//! Visitors used in unusual, but permitted, ways.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml::de::{Deserialize, ElementReader, RawDeserialize, RawDeserializeVisitor, VisitorError};
use std::mem::MaybeUninit;

#[derive(static_xml_derive::Deserialize)]
struct Part {
    part: Vec<String>,
    one: Option<Box1>,
    #[static_xml(attribute)]
    k: Option<String>,
    #[static_xml(flatten)]
    pick: Pick,
}

#[derive(static_xml_derive::Deserialize)]
enum Pick {
    A(String),
    B(Vec<String>),
}

#[derive(static_xml_derive::Deserialize)]
struct Box1 {
    #[static_xml(text)]
    t: String,
}

struct Odd;

thread_local!(static WAY: std::cell::Cell<u8> = const { std::cell::Cell::new(0) });

impl Deserialize for Odd {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let (mut a, mut b) = (MaybeUninit::<Part>::uninit(), MaybeUninit::<Part>::uninit());
        let mut v = <Part as RawDeserialize>::Visitor::new(&mut a);
        let mut w = <Part as RawDeserialize>::Visitor::new(&mut b);
        match WAY.with(|w| w.get()) {
            0 => {
                e.read_to(&mut v)?;
                std::mem::forget(v);
            }
            1 => {
                // Nothing was read.
                v.finalize(None)?;
            }
            2 => {
                v.finalize(Some(|| Part { part: vec!["x".into()], one: None, k: Some("y".into()), pick: Pick::A("z".into()) }))?;
                drop(w);
            }
            3 => {
                e.read_to(&mut v)?;
                std::mem::swap(&mut v, &mut w);
                v.finalize(None).ok();
                w.finalize(None)?;
            }
            4 => {
                let mut boxed = Box::new(v);
                e.read_to(&mut *boxed)?;
                let moved = vec![*boxed];
                for v in moved {
                    v.finalize(None)?;
                }
            }
            5 => {
                e.read_to(&mut v)?;
                v = w;
                drop(v);
            }
            _ => {
                e.read_to(&mut v)?;
                v.finalize(None)?;
                drop(w);
                // Again into the same place.
                let x = <Part as RawDeserialize>::Visitor::new(&mut a);
                x.finalize(Some(|| panic!("no default")))?;
            }
        }
        Ok(Odd)
    }
}

#[derive(static_xml_derive::Deserialize)]
struct Outer {
    odd: Vec<Odd>,
    #[static_xml(flatten)]
    part: Part,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for way in 0..7 {
        WAY.with(|w| w.set(way));
        for d in ["<x k='1'><part>1</part><one>t</one><A>a</A><odd k='2'><B/><B>2</B></odd></x>", "<x/>", "<x><odd/><part/></x>", "<x><one/><one/></x>", "<x><A/><B/></x>", "<x>"] {
            let r = std::panic::catch_unwind(|| (static_xml::de::from_str::<Odd>(d).is_ok(), static_xml::de::from_str::<Outer>(d).is_ok()));
            println!("{} {:?}", way, r.ok());
        }
    }
}
