include!("header.rs");
extern crate symrt;
