include!("fault.rs");
extern crate symrt;
