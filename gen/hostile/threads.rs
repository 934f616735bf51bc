//! A visitor handed to another thread while what it writes to is still borrowed.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use static_xml::de::{RawDeserialize, RawDeserializeVisitor};

/// Can't be dropped by another thread.
struct Local(std::rc::Rc<()>);

impl Default for Local {
    fn default() -> Self {
        COUNT.with(|c| Local(c.clone()))
    }
}

thread_local!(static COUNT: std::rc::Rc<()> = std::rc::Rc::new(()));

impl static_xml::de::ParseText for Local {
    fn parse(_: String) -> Result<Self, static_xml::BoxedStdError> {
        Ok(Local::default())
    }
}

#[derive(static_xml_derive::Deserialize)]
struct Part {
    #[static_xml(default)]
    local: Local,
}

fn main() {
    let mut out = std::mem::MaybeUninit::<Part>::uninit();
    let v = <Part as RawDeserialize>::Visitor::new(&mut out);
    std::thread::scope(|s| {
        s.spawn(move || v.finalize(None).is_ok());
    });
}
