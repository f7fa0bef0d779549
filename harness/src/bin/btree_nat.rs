include!("btree.rs"); extern crate symrt;
