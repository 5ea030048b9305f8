//! Ruleset histories: registers 1..4 hold real rulesets.
use crate::terms::pat;
use crate::util::*;
use crate::{langs, step, Rec};
use ruler::enumo::{Rule, Ruleset};
use ruler::{DeriveType, SynthLanguage};
use serde_json::{json, Value};

fn rule<L: SynthLanguage>(v: &Value) -> Rule<L> {
    Rule::new(&pat(&v[0]), &pat(&v[1])).expect("rule")
}
fn rj<L: SynthLanguage>(key: &str, r: &Rule<L>) -> Value {
    json!([parse_e(&r.lhs.to_string()), parse_e(&r.rhs.to_string()), key, r.name.to_string(), r.to_string()])
}
fn dump<L: SynthLanguage>(rs: &Ruleset<L>) -> Value {
    let a: Vec<Value> = rs.into_iter().map(|(k, r)| rj(k, r)).collect();
    let b: Vec<String> = rs.iter().map(|r| r.name.to_string()).collect();
    let c: Vec<String> = rs.clone().into_iter().map(|(k, _)| k.to_string()).collect();
    if b != c || b != rs.to_str_vec() {
        return json!([["iterators differ"]]);
    }
    Value::Array(a)
}
fn size(v: &Value) -> usize {
    1 + arr(v).iter().skip(1).map(size).sum::<usize>()
}
fn has(v: &Value, x: &str) -> bool {
    v[0] == json!(x) || arr(v).iter().skip(1).any(|k| has(k, x))
}
/// the predicate of a partition, with an artificial delay per rule
fn pred<L: SynthLanguage>(s: &Value, r: &Rule<L>) -> bool {
    let spin = us(&s["spin"]) as u64;
    if spin > 0 {
        let h = r.name.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        std::thread::sleep(std::time::Duration::from_micros((h ^ spin) % (spin * 8)));
    }
    let l = parse_e(&r.lhs.to_string());
    let q = parse_e(&r.rhs.to_string());
    match st(&s["p"]) {
        "all" => true,
        "none" => false,
        "lsize" => size(&l) <= us(&s["n"]),
        "shrink" => size(&q) < size(&l),
        "in" => arr(&s["rules"]).iter().any(|x| x[0] == l && x[1] == q),
        _ => has(&l, st(&s["x"])) || has(&q, st(&s["x"])),
    }
}
fn texts(v: &Value) -> Vec<String> {
    arr(v).iter().map(|t| st(t).to_string()).collect()
}

fn run_l<L: SynthLanguage>(h: &Value, rec: &Rec) {
    let mut regs: Vec<Ruleset<L>> = vec![Ruleset::default(); 5];
    for s in arr(&h["steps"]) {
        let mut next = regs.clone();
        let nx = &mut next;
        step(rec, s, || {
            let r = |k: &str| us(&s[k]);
            let mut o = json!({"r": "ok"});
            match st(&s["op"]) {
                "new" => nx[r("d")] = Ruleset::new(texts(&s["texts"])),
                "file" => {
                    let f = scratch("rs");
                    // the file may exist already, with other contents
                    if s.get("over").is_some() {
                        regs[r("over")].to_file(&f);
                    }
                    regs[r("a")].to_file(&f);
                    nx[r("d")] = Ruleset::from_file(&f);
                    let _ = std::fs::remove_file(&f);
                }
                "load" => {
                    let f = scratch("rs");
                    std::fs::write(&f, texts(&s["texts"]).join("\n")).unwrap();
                    nx[r("d")] = Ruleset::from_file(&f);
                    let _ = std::fs::remove_file(&f);
                }
                "add" => nx[r("d")].add(rule(&s["rule"])),
                "union" => nx[r("d")] = regs[r("a")].union(&regs[r("b")]),
                "extend" => nx[r("d")].extend(regs[r("b")].clone()),
                "addall" => {
                    let v: Vec<&Rule<L>> = regs[r("b")].iter().collect();
                    nx[r("d")].add_all(v)
                }
                "remove" => nx[r("d")].remove_all(regs[r("b")].clone()),
                "part" => {
                    let (y, n) = regs[r("a")].partition(|x| pred(s, x));
                    nx[r("y")] = y;
                    nx[r("n_")] = n;
                }
                "size" => {
                    let g = &regs[r("a")];
                    let c: Vec<bool> = arr(&s["rules"]).iter().map(|x| g.contains(&rule(x))).collect();
                    o = json!({"r": "ok", "len": g.len(), "bidir": g.bidir_len(), "empty": g.is_empty(), "has": c});
                }
                "eq" => o = json!({"r": "ok", "b": regs[r("a")] == regs[r("b")]}),
                "show" => {
                    let lines = printed(|| regs[r("a")].pretty_print());
                    o = json!({"r": "ok", "lines": lines});
                }
                "pd" => {
                    let (f, g) = (scratch("one"), scratch("two"));
                    regs[r("a")].to_file(&f);
                    regs[r("b")].to_file(&g);
                    let ty = if st(&s["ty"]) == "lhs" { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
                    let lines = printed(|| Ruleset::<L>::print_derive(ty, &f, &g));
                    let _ = (std::fs::remove_file(&f), std::fs::remove_file(&g));
                    let k = lines.iter().position(|l| l.ends_with("Missing:")).map(|k| k + 1).unwrap_or(lines.len());
                    let head = lines[..k].join(" ").replace(&f, "one").replace(&g, "two");
                    let nums: Vec<u64> = head
                        .split(|c: char| !c.is_ascii_digit())
                        .filter_map(|x| x.parse().ok())
                        .collect();
                    o = json!({"r": "ok", "nums": nums, "lines": lines[k..]});
                }
                "parse" => match Rule::<L>::from_string(st(&s["text"])) {
                    Ok((f, b)) => {
                        o = json!({"r": "ok", "err": false, "f": rj(&f.name, &f),
                                   "b": b.map(|b| vec![rj(&b.name, &b)]).unwrap_or_default()})
                    }
                    Err(_) => o = json!({"r": "ok", "err": true, "f": [], "b": []}),
                },
                x => panic!("op {}", x),
            }
            o["regs"] = Value::Array(nx[1..].iter().map(dump).collect());
            o
        });
        regs = next;
    }
}

pub fn run(h: &Value, rec: &Rec) {
    match st(&h["lang"]) {
        "sym" => run_l::<egg::SymbolLang>(h, rec),
        "toy" => run_l::<langs::toy::Toy>(h, rec),
        _ => run_l::<langs::bv4::Bv>(h, rec),
    }
}
