#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
pub use common::*;
#[path = "../util.rs"]
mod util;
#[path = "../wl.rs"]
mod wl;

fn main() {
    harness(wl::run)
}
