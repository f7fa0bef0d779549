include!("cli.rs");
extern crate symrt;
