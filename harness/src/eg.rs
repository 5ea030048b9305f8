//! E-graph histories over one domain: registers 1..4 hold real e-graphs.
use crate::terms::*;
use crate::util::*;
use crate::{langs, step, Rec};
use egg::{Language, RecExpr};
use ruler::enumo::{Metric, Rule, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{recursive_rules, run_fast_forwarding, run_workload, Lang};
use ruler::*;
use serde_json::{json, Value};
use std::str::FromStr;

pub const NODE_CAP: usize = 150;

/// how constants of the domain are written in a dump
pub trait Val {
    fn js(&self) -> Value;
}
impl Val for usize {
    fn js(&self) -> Value {
        json!(self)
    }
}
impl Val for langs::Num {
    fn js(&self) -> Value {
        json!(self.0)
    }
}
impl<const N: u128> Val for ruler::BV<N> {
    fn js(&self) -> Value {
        if N <= 8 {
            json!(self.0 as u64)
        } else {
            bits(self.0, N as usize)
        }
    }
}

type Eg<L> = EGraph<L, SynthAnalysis>;

pub fn expr<L: Language + egg::FromOp>(v: &Value) -> RecExpr<L> {
    e_text(v).parse().unwrap_or_else(|_| panic!("cannot parse {}", e_text(v)))
}
/// the same term with equal subterms shared
fn shared<L: SynthLanguage>(e: &RecExpr<L>) -> RecExpr<L> {
    let mut out: Vec<L> = vec![];
    let mut map: Vec<usize> = vec![];
    for n in e.as_ref() {
        let m = n.clone().map_children(|c| Id::from(map[usize::from(c)]));
        let k = out.iter().position(|x| *x == m).unwrap_or_else(|| {
            out.push(m);
            out.len() - 1
        });
        map.push(k);
    }
    RecExpr::from(out)
}
fn limits(s: &Value) -> Limits {
    let g = |k: &str, d: usize| s.get(k).map(us).unwrap_or(d);
    Limits { iter: g("it", 2), node: g("node", 1_000_000), match_: g("match", 1_000_000) }
}
fn sched(s: &Value) -> Scheduler {
    match st(&s["s"]) {
        "simple" => Scheduler::Simple(limits(s)),
        "sat" => Scheduler::Saturating(limits(s)),
        _ => Scheduler::Compress(limits(s)),
    }
}
pub fn dump<L: SynthLanguage>(g: &Eg<L>) -> Value
where
    L::Constant: Val,
{
    let mut cs: Vec<_> = g.classes().collect();
    cs.sort_by_key(|c| c.id);
    Value::Array(
        cs.iter()
            .map(|c| {
                let n: Vec<Value> = c
                    .nodes
                    .iter()
                    .map(|n| {
                        let ch: Vec<usize> =
                            n.children().iter().map(|i| usize::from(g.find(*i))).collect();
                        json!([n.to_string(), ch])
                    })
                    .collect();
                let cv: Vec<Value> = c
                    .data
                    .cvec
                    .iter()
                    .map(|v| v.as_ref().map(|x| x.js()).unwrap_or(json!(-1)))
                    .collect();
                let b = |x: &Option<L::Constant>| {
                    x.as_ref().map(|x| json!([x.js()])).unwrap_or(json!([]))
                };
                json!({"id": usize::from(c.id), "n": n, "cv": cv,
                       "lo": b(&c.data.interval.low), "hi": b(&c.data.interval.high),
                       "s": parse_e(&c.data.simplest.to_string())})
            })
            .collect(),
    )
}
fn nodes<L: SynthLanguage>(g: &Eg<L>) -> usize {
    g.classes().map(|c| c.nodes.len()).sum()
}
fn dtype(v: &Value) -> DeriveType {
    if st(v) == "lhs" {
        DeriveType::Lhs
    } else {
        DeriveType::LhsAndRhs
    }
}
fn strs(v: &Value) -> Vec<String> {
    arr(v).iter().map(|x| st(x).to_string()).collect()
}

pub fn run_l<L: SynthLanguage>(h: &Value, rec: &Rec)
where
    L::Constant: Val + FromStr,
{
    let mut regs: Vec<Eg<L>> = vec![Default::default(); 5];
    for s in arr(&h["steps"]) {
        let mut put: Option<(usize, Eg<L>)> = None;
        let ro = &regs;
        step(rec, s, || {
            let skip = json!({"r": "skip"});
            match st(&s["op"]) {
                // new e-graph: optional initialised variables, terms, unions
                "build" => {
                    let mut g: Eg<L> = Default::default();
                    if let Some(v) = s.get("vars") {
                        L::initialize_vars(&mut g, &strs(v));
                    }
                    for t in arr(&s["terms"]) {
                        g.add_expr(&expr::<L>(t));
                    }
                    for u in s.get("unions").map(arr).unwrap_or(&vec![]) {
                        let a = g.add_expr(&expr::<L>(&u[0]));
                        let b = g.add_expr(&expr::<L>(&u[1]));
                        g.union(a, b);
                    }
                    g.rebuild();
                    let o = json!({"r": "ok", "g": dump(&g)});
                    put = Some((us(&s["d"]), g));
                    o
                }
                // one more addition or union in place
                "add" => {
                    let mut g = ro[us(&s["d"])].clone();
                    g.add_expr(&expr::<L>(&s["a"]));
                    g.rebuild();
                    let o = json!({"r": "ok", "g": dump(&g)});
                    put = Some((us(&s["d"]), g));
                    o
                }
                "union" => {
                    let mut g = ro[us(&s["d"])].clone();
                    let a = g.add_expr(&expr::<L>(&s["a"]));
                    let b = g.add_expr(&expr::<L>(&s["b"]));
                    g.union(a, b);
                    g.rebuild();
                    let o = json!({"r": "ok", "g": dump(&g)});
                    put = Some((us(&s["d"]), g));
                    o
                }
                // materialise a workload
                "mat" => {
                    let w = Workload::new(arr(&s["ts"]).iter().map(e_text).collect::<Vec<_>>());
                    let w = if arr(&s["ts"]).is_empty() { Workload::empty() } else { w };
                    let mut g = w.to_egraph::<L>();
                    g.rebuild();
                    let o = json!({"r": "ok", "g": dump(&g), "len": g.analysis.cvec_len});
                    put = Some((us(&s["d"]), g));
                    o
                }
                "run" => {
                    let src = &ro[us(&s["g"])];
                    let rs = match s.get("texts") {
                        // the same rules, parsed from texts
                        Some(t) => Ruleset::<L>::new(strs(t)),
                        None => rules::<L>(&s["rules"]),
                    };
                    if st(&s["s"]) == "compress" {
                        let big = Scheduler::Simple(limits(s)).run(src, &rs);
                        if nodes(&big) > NODE_CAP {
                            return skip;
                        }
                    }
                    let (d0, size0) = (dump(src), src.total_size());
                    let out = sched(s).run(src, &rs);
                    if nodes(&out) > NODE_CAP {
                        return skip;
                    }
                    let same = d0 == dump(src) && size0 == src.total_size();
                    let o = json!({"r": "ok", "g": dump(&out), "same": same,
                                   "size0": size0, "size1": out.total_size()});
                    put = Some((us(&s["d"]), out));
                    o
                }
                "xc" => {
                    let rs = Ruleset::<L>::extract_candidates(&ro[us(&s["a"])], &ro[us(&s["b"])]);
                    json!({"r": "ok", "rules": rules_json(&rs)})
                }
                "cm" => {
                    let rs = Ruleset::<L>::cvec_match(&ro[us(&s["g"])]);
                    json!({"r": "ok", "rules": rules_json(&rs)})
                }
                "fm" => {
                    let rs = Ruleset::<L>::fast_cvec_match(&ro[us(&s["g"])]);
                    json!({"r": "ok", "rules": rules_json(&rs)})
                }
                "issat" => {
                    let r: Rule<L> = rule(&s["rule"]).unwrap();
                    json!({"r": "ok", "b": r.is_saturating()})
                }
                "allowed" => {
                    let r: Rule<L> = rule(&s["rule"]).unwrap();
                    json!({"r": "ok", "b": L::is_allowed_rewrite(&r.lhs, &r.rhs)})
                }
                "der" => {
                    let rs = rules::<L>(&s["rules"]);
                    let r: Rule<L> = rule(&s["rule"]).unwrap();
                    json!({"r": "ok", "b": rs.can_derive(dtype(&s["ty"]), &r, limits(s))})
                }
                "split" => {
                    let rs = rules::<L>(&s["rules"]);
                    let ag = rules::<L>(&s["against"]);
                    let (can, cannot) = rs.derive(dtype(&s["ty"]), &ag, limits(s));
                    let one: Vec<bool> =
                        ag.iter().map(|r| rs.can_derive(dtype(&s["ty"]), r, limits(s))).collect();
                    json!({"r": "ok", "can": rules_json(&can), "cannot": rules_json(&cannot),
                           "rules": rules_json(&rs), "ag": rules_json(&ag), "one": one})
                }
                "min" => {
                    let mut c = rules::<L>(&s["cands"]);
                    let p = rules::<L>(&s["prior"]);
                    let (ch, inv) = c.minimize(p, sched(s));
                    json!({"r": "ok", "chosen": rules_json(&ch), "invalid": rules_json(&inv)})
                }
                "val" => {
                    let (l, r) = (pat::<L>(&s["rule"][0]), pat::<L>(&s["rule"][1]));
                    let v = format!("{:?}", L::validate(&l, &r));
                    let ask = || Rule::<L>::new(&l, &r).map(|r| r.is_valid());
                    let is = ask();
                    // the solver may have given up on one of two calls: insist before saying they differ
                    let mut again = v.clone();
                    let mut tries = 0;
                    while again == "Valid" && is == Some(false) && tries < 10 {
                        tries += 1;
                        std::thread::sleep(std::time::Duration::from_millis(50 * tries));
                        if ask() != Some(false) {
                            again = "Differs".into();
                        } else {
                            again = format!("{:?}", L::validate(&l, &r));
                        }
                    }
                    json!({"r": "ok", "v": v, "again": again, "is": is.map(|b| json!([b])).unwrap_or(json!([]))})
                }
                "score" => {
                    let a: Rule<L> = rule(&s["a"]).unwrap();
                    let b: Rule<L> = rule(&s["b"]).unwrap();
                    let c = a.score().cmp(&b.score()) as i32;
                    json!({"r": "ok", "c": c})
                }
                "gen" => {
                    let mk = |v: &Value| {
                        let e = expr::<L>(v);
                        if s.get("share").is_some() {
                            shared(&e)
                        } else {
                            e
                        }
                    };
                    let mut m = HashMap::default();
                    let p = L::generalize(&mk(&s["a"]), &mut m);
                    let q = L::generalize(&mk(&s["b"]), &mut m);
                    let (ip, iq) = (L::instantiate(&p), L::instantiate(&q));
                    let e = |x: String| parse_e(&x);
                    json!({"r": "ok", "p": e(p.to_string()), "q": e(q.to_string()),
                           "ip": e(ip.to_string()), "iq": e(iq.to_string())})
                }
                "synth" => {
                    let w = Workload::new(arr(&s["ts"]).iter().map(e_text).collect::<Vec<_>>());
                    let lp = Limits { iter: us(&s["pit"]), node: 1_000_000, match_: 1_000_000 };
                    let lm = Limits { iter: us(&s["mit"]), node: 1_000_000, match_: 1_000_000 };
                    let f = s["fast"].as_bool().unwrap();
                    let rs = run_workload::<L>(w, rules(&s["prior"]), lp, lm, f);
                    json!({"r": "ok", "rules": rules_json(&rs)})
                }
                "ff" => {
                    let w = Workload::new(arr(&s["ts"]).iter().map(e_text).collect::<Vec<_>>());
                    let lp = Limits { iter: us(&s["pit"]), node: 1_000_000, match_: 1_000_000 };
                    let lm = Limits { iter: us(&s["mit"]), node: 1_000_000, match_: 1_000_000 };
                    let rs = run_fast_forwarding::<L>(w, rules(&s["prior"]), lp, lm);
                    json!({"r": "ok", "rules": rules_json(&rs),
                           "expl": rules_json(&L::get_exploratory_rules())})
                }
                "rec" => {
                    let o: Vec<Vec<String>> = arr(&s["ops"]).iter().map(strs).collect();
                    let lang = Lang { vals: strs(&s["vals"]), vars: strs(&s["vars"]), ops: o };
                    let m: Metric = metric(&s["m"]);
                    let rs = recursive_rules::<L>(m, us(&s["n"]), lang, rules(&s["prior"]));
                    json!({"r": "ok", "rules": rules_json(&rs)})
                }
                o => panic!("op {}", o),
            }
        });
        if let Some((d, g)) = put {
            regs[d] = g;
        }
    }
}

pub fn run(h: &Value, rec: &Rec) {
    match st(&h["lang"]) {
        "sym" => run_l::<egg::SymbolLang>(h, rec),
        "toy" => run_l::<langs::toy::Toy>(h, rec),
        "toya" => run_l::<langs::toya::Toy>(h, rec),
        "toyf" => run_l::<langs::toyf::Toy>(h, rec),
        "toyx" => run_l::<langs::toyx::Toy>(h, rec),
        "iv" => run_l::<langs::iv::Iv>(h, rec),
        "bv1" => run_l::<langs::bv1::Bv>(h, rec),
        "bv2" => run_l::<langs::bv2::Bv>(h, rec),
        "bv3" => run_l::<langs::bv3::Bv>(h, rec),
        "bv4" => run_l::<langs::bv4::Bv>(h, rec),
        "bv8" => run_l::<langs::bv8::Bv>(h, rec),
        "bv16" => run_l::<langs::bv16::Bv>(h, rec),
        "bv32" => run_l::<langs::bv32::Bv>(h, rec),
        "bv64" => run_l::<langs::bv64::Bv>(h, rec),
        "bv128" => run_l::<langs::bv128::Bv>(h, rec),
        l => panic!("lang {}", l),
    }
}
