#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
pub use common::*;
#[path = "../langs.rs"]
mod langs;
#[path = "../lg.rs"]
mod lg;
#[path = "../terms.rs"]
mod terms;
#[path = "../util.rs"]
mod util;

fn main() {
    harness(lg::run)
}
