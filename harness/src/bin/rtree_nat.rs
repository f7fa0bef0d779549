include!("rtree.rs");
extern crate symrt;
