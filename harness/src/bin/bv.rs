#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
pub use common::*;
#[path = "../util.rs"]
mod util;
#[path = "../bv.rs"]
mod bv;

fn main() {
    harness(bv::run)
}
