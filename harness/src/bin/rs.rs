#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
pub use common::*;
#[path = "../langs.rs"]
mod langs;
#[path = "../rs.rs"]
mod rs;
#[path = "../terms.rs"]
mod terms;
#[path = "../util.rs"]
mod util;

fn main() {
    harness(rs::run)
}
