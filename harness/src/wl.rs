//! Workload histories: registers of real `Workload`s, forced after every step.
use crate::util::*;
use crate::{step, Rec};
use ruler::enumo::{Filter, Sexp, Workload};
use ruler::recipe_utils::{base_lang, iter_metric, substitute};
use serde_json::{json, Value};

const CAP: usize = 260;

fn filter(v: &Value) -> Filter {
    match st(&v["k"]) {
        "lt" => Filter::MetricLt(metric(&v["m"]), us(&v["n"])),
        "eq" => Filter::MetricEq(metric(&v["m"]), us(&v["n"])),
        "contains" => Filter::Contains(pat_text(&v["p"]).parse().unwrap()),
        "excludes" => Filter::Excludes(pat_text(&v["p"]).parse().unwrap()),
        "canon" => Filter::Canon(arr(&v["s"]).iter().map(|x| st(x).to_string()).collect()),
        "and" => Filter::And(arr(&v["fs"]).iter().map(filter).collect()),
        "or" => Filter::Or(arr(&v["fs"]).iter().map(filter).collect()),
        "inv" => Filter::Invert(Box::new(filter(&v["f"]))),
        k => panic!("filter {}", k),
    }
}

fn occ(s: &Sexp, n: &str) -> u32 {
    match s {
        Sexp::Atom(a) => (a == n) as u32,
        Sexp::List(l) => l.iter().map(|x| occ(x, n)).sum(),
    }
}
/// size of the naive plug, from the forced operands
fn plug_size(ts: &[Sexp], n: &str, pegs: usize) -> usize {
    ts.iter().map(|t| pegs.checked_pow(occ(t, n)).unwrap_or(CAP + 1)).fold(0, |a: usize, b| a.saturating_add(b))
}

pub fn run(h: &Value, rec: &Rec) {
    let n = 7;
    let mut regs: Vec<Workload> = vec![Workload::default(); n];
    let mut seen: Vec<Vec<Sexp>> = vec![vec![]; n];
    let big = us(h.get("cap").unwrap_or(&json!(CAP)));
    for s in arr(&h["steps"]) {
        let regs_ro = regs.clone();
        let seen_ro = seen.clone();
        let mut new: Option<(usize, Workload, Vec<Sexp>)> = None;
        step(rec, s, || {
            let r = |k: &str| us(&s[k]);
            let skip = json!({"r": "skip"});
            let wk = match st(&s["op"]) {
                "new" => {
                    let texts: Vec<String> = arr(&s["ts"]).iter().map(text).collect();
                    if texts.is_empty() {
                        Workload::empty()
                    } else if texts.len() % 2 == 0 {
                        let refs: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
                        Workload::from(&refs[..])
                    } else {
                        Workload::new(texts)
                    }
                }
                "plug" => {
                    if plug_size(&seen_ro[r("w")], st(&s["n"]), seen_ro[r("p")].len()) > big {
                        return skip;
                    }
                    regs_ro[r("w")].clone().plug(st(&s["n"]), &regs_ro[r("p")])
                }
                "append" => {
                    if seen_ro[r("a")].len() + seen_ro[r("b")].len() > big {
                        return skip;
                    }
                    regs_ro[r("a")].clone().append(regs_ro[r("b")].clone())
                }
                "filter" => regs_ro[r("w")].clone().filter(filter(&s["f"])),
                "iter" => iter_metric(regs_ro[r("w")].clone(), st(&s["a"]), metric(&s["m"]), us(&s["n"])),
                "subst" => {
                    if seen_ro[r("w")].len() * seen_ro[r("s")].len() > big {
                        return skip;
                    }
                    substitute(regs_ro[r("w")].clone(), regs_ro[r("s")].clone(), st(&s["a"]))
                }
                "file" => {
                    let f = scratch("wl");
                    // the file may exist already, with other contents
                    if s.get("over").is_some() {
                        regs_ro[r("over")].to_file(&f);
                    }
                    regs_ro[r("w")].to_file(&f);
                    let w = Workload::from_file(&f);
                    let _ = std::fs::remove_file(&f);
                    w
                }
                "base" => base_lang(us(&s["n"])),
                "show" => {
                    let lines = printed(|| regs_ro[r("w")].pretty_print());
                    return json!({"r": "ok", "lines": lines.iter().map(|l| chars(l)).collect::<Vec<_>>()});
                }
                "print" => {
                    let t = mk_sexp(&s["t"]);
                    return json!({"r": "ok", "cs": chars(&t.to_string())});
                }
                "parse" => {
                    let t: Sexp = unchars(&s["cs"]).parse().unwrap();
                    return json!({"r": "ok", "t": sexp_json(&t)});
                }
                o => panic!("op {}", o),
            };
            let ts = wk.force();
            let out = json!({"r": "ok", "ts": ts.iter().map(sexp_json).collect::<Vec<_>>()});
            new = Some((r("d"), wk, ts));
            out
        });
        if let Some((d, w, ts)) = new {
            regs[d] = w;
            seen[d] = ts;
        }
    }
}
