include!("attr.rs");
extern crate symrt;
