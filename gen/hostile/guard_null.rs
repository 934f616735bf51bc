//! Guards for places that aren't there.
#![forbid(unsafe_code)]

fn main() {
    let g = static_xml::de::FieldGuard::new(std::ptr::null_mut::<String>());
    println!("{}", g.is_initialized());
    g.release();
    let mut s = String::from("x");
    let g = static_xml::de::FieldGuard::new(&mut s);
    drop(g);
    println!("{}", s);
}
