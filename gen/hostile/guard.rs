//! A guard for a place with nothing in it.
#![forbid(unsafe_code)]

fn main() {
    let mut v = std::mem::MaybeUninit::<String>::uninit();
    let mut g = static_xml::de::FieldGuard::new(v.as_mut_ptr());
    g.set_initialized();
    println!("{}", g.is_initialized());
}
