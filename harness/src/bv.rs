//! Direct calculations with `BV<N>` at many widths.
use crate::util::*;
use crate::{step, Rec};
use rand::{Rng, SeedableRng};
use ruler::BV;
use serde_json::{json, Value};
use std::ops::Not;

fn v<const N: u128>(x: BV<N>) -> Value {
    let hi = if N == 128 { 0 } else { (x.0 >> N != 0) as u8 };
    json!([bits(x.0, N as usize), hi])
}
fn run_n<const N: u128>(h: &Value, rec: &Rec) {
    for s in arr(&h["steps"]) {
        step(rec, s, || {
            let list = |k: &str| -> Vec<BV<N>> { arr(&s[k]).iter().map(|x| BV::<N>(unbits(x))).collect() };
            match st(&s["op"]) {
                "tab" => {
                    let f = |a: BV<N>, b: BV<N>| match st(&s["o"]) {
                        "+" => a.wrapping_add(b),
                        "--" => a.wrapping_sub(b),
                        "*" => a.wrapping_mul(b),
                        "<<" => a.my_shl(b),
                        ">>" => a.my_shr(b),
                        "&" => a & b,
                        "|" => a | b,
                        _ => a ^ b,
                    };
                    let bs = list("b");
                    let t: Vec<Vec<Value>> =
                        list("a").iter().map(|a| bs.iter().map(|b| v(f(*a, *b))).collect()).collect();
                    json!({"r": "ok", "v": t})
                }
                "un" => {
                    let f = |a: BV<N>| if st(&s["o"]) == "~" { a.not() } else { a.wrapping_neg() };
                    json!({"r": "ok", "v": list("a").iter().map(|a| v(f(*a))).collect::<Vec<_>>()})
                }
                "consts" => json!({"r": "ok", "zero": v(BV::<N>::ZERO), "ones": v(BV::<N>::ALL_ONES),
                    "neg1": v(BV::<N>::NEG_ONE), "min": v(BV::<N>::MIN), "max": v(BV::<N>::MAX)}),
                "new" => {
                    let a: Vec<u128> = arr(&s["a"]).iter().map(unbits).collect();
                    json!({"r": "ok", "v": a.iter().map(|x| v(BV::<N>::new(*x))).collect::<Vec<_>>(),
                           "f": a.iter().map(|x| v(BV::<N>::from(*x))).collect::<Vec<_>>()})
                }
                "lit" => {
                    let t: Vec<Value> = arr(&s["t"]).iter().map(|x| v(st(x).parse::<BV<N>>().unwrap())).collect();
                    json!({"r": "ok", "v": t})
                }
                "show" => {
                    let t: Vec<String> = list("a").iter().map(|x| x.to_string()).collect();
                    json!({"r": "ok", "t": t})
                }
                "cmp" => {
                    let (a, b) = (list("a"), list("b"));
                    let t: Vec<i32> = a.iter().zip(&b).map(|(a, b)| {
                        let c = a.cmp(b) as i32;
                        if (c == 0) != (a == b) { 7 } else { c }
                    }).collect();
                    json!({"r": "ok", "v": t})
                }
                "rnd" => {
                    let mut g = rand_pcg::Pcg64::seed_from_u64(us(&s["seed"]) as u64);
                    let t: Vec<Value> = (0..us(&s["n"])).map(|_| v(g.gen::<BV<N>>())).collect();
                    json!({"r": "ok", "v": t})
                }
                o => panic!("op {}", o),
            }
        });
    }
}
macro_rules! widths {
    ($h:ident, $rec:ident, $($n:literal)*) => {
        match us(&$h["w"]) { $($n => run_n::<$n>($h, $rec),)* w => panic!("width {}", w) }
    };
}
pub fn run(h: &Value, rec: &Rec) {
    widths!(h, rec, 1 2 3 4 5 6 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 96 100 127 128)
}
