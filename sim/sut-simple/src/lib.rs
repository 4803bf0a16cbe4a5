#![allow(warnings)]
extern crate simstd as std;
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
