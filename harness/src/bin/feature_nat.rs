include!("feature.rs");
extern crate symrt;
