include!("file.rs");
extern crate symrt;
