#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
pub use common::*;
#[path = "../eg.rs"]
mod eg;
#[path = "../langs.rs"]
mod langs;
#[path = "../terms.rs"]
mod terms;
#[path = "../util.rs"]
mod util;

fn main() {
    harness(eg::run)
}
