//! Report logging: every history runs in its own directory (the process changes into it, so one job only).
use crate::terms::rules;
use crate::util::*;
use crate::{langs, step, Rec};
use ruler::enumo::{Ruleset, Scheduler};
use ruler::*;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

const FILE: &str = "nightly/data/output.json";

/// numbers with a fraction in millionths
fn project(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => json!((n.as_f64().unwrap() * 1e6).round() as i64),
        Value::Array(a) => Value::Array(a.iter().map(project).collect()),
        Value::Object(o) => {
            let mut ks: Vec<&String> = o.keys().collect();
            ks.sort();
            Value::Object(ks.iter().map(|k| ((*k).clone(), project(&o[*k]))).collect())
        }
        x => x.clone(),
    }
}
/// the report file: kind, rows as texts, and the raw contents if it holds no rows
fn file() -> (Value, Vec<Value>) {
    let p = std::path::Path::new(FILE);
    if !p.exists() {
        return (json!({"k": "absent", "rows": [], "raw": ""}), vec![]);
    }
    match std::fs::read_to_string(p) {
        Err(_) => (json!({"k": "unreadable", "rows": [], "raw": ""}), vec![]),
        Ok(s) if s.is_empty() => (json!({"k": "empty", "rows": [], "raw": ""}), vec![]),
        Ok(s) => match serde_json::from_str::<Vec<Value>>(&s) {
            Ok(v) => {
                let t: Vec<String> = v.iter().map(|x| project(x).to_string()).collect();
                (json!({"k": "rows", "rows": t, "raw": ""}), v)
            }
            Err(_) => (json!({"k": "bad", "rows": [], "raw": s}), vec![]),
        },
    }
}
fn split(dir: &str, ty: &str, o: &Value) -> Option<Value> {
    let o = o.as_object()?;
    let strs = |k: &str| -> Option<Value> {
        for x in o.get(k)?.as_array()? {
            x.as_str()?;
        }
        Some(o[k].clone())
    };
    let dt = o.get("derive_type").map(|x| x.as_str().unwrap_or("?")).unwrap_or("-");
    let n = o.len() - (dt != "-") as usize;
    Some(json!({"dir": dir, "ty": ty, "dt": dt, "can": strs("can")?, "cannot": strs("cannot")?,
                "time": o.get("time")?.as_f64()? >= 0.0, "n": n}))
}
/// the last row in a fixed shape; the derivability tables as a list
fn row(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let ty = o.get("TYPE")?.as_str()?;
    let t = |v: &Value| -> Option<Value> { Some(json!((v.as_f64()? * 1e6).round() as i64)) };
    let list = |v: &Value| -> Option<Value> {
        for x in v.as_array()? {
            x.as_str()?;
        }
        Some(v.clone())
    };
    let s = |v: Option<&Value>| -> Option<Value> { Some(json!(v?.as_str()?)) };
    let mut keys: Vec<&String> = o.keys().collect();
    keys.sort();
    let mut der = vec![];
    match ty {
        "baseline" => {
            for (dir, x) in o.get("derivability")?.as_object()? {
                for (ty, y) in x.as_object()? {
                    der.push(split(dir, ty, y)?);
                }
            }
            Some(json!({"ty": ty, "keys": keys, "spec": s(o.get("spec_name"))?, "base": s(o.get("baseline_name"))?,
                "loc": s(o.get("loc"))?, "rules": list(o.get("rules")?)?, "time": t(o.get("time")?)?, "der": der}))
        }
        "bv" => {
            for (ty, y) in o.get("derivability")?.as_object()? {
                der.push(split("-", ty, y)?);
            }
            let (g, f) = (o.get("direct_gen")?, o.get("from_bv4")?);
            Some(json!({"ty": ty, "keys": keys, "domain": s(o.get("domain"))?, "rules": list(g.get("rules")?)?,
                "time": t(g.get("time")?)?, "sound": list(f.get("rules")?)?, "vt": f.get("time")?.as_f64()? >= 0.0, "der": der}))
        }
        "ff_phases" => Some(json!({"ty": ty, "keys": keys, "ph": [s(o.get("phase1"))?, s(o.get("phase2"))?, s(o.get("phase3"))?],
                "time": t(o.get("time")?)?, "rules": list(o.get("rules")?)?})),
        _ => None,
    }
}
fn answers<L: SynthLanguage>(a: &Ruleset<L>, b: &Ruleset<L>, ty: DeriveType) -> Vec<bool> {
    b.iter().map(|r| a.can_derive(ty, r, Limits::deriving())).collect()
}
fn phase<L: SynthLanguage>(v: &Value) -> Phase<L> {
    let l = Limits::synthesis();
    Phase {
        rules: Ruleset::default(),
        rules_name: st(&v["n"]).to_string(),
        scheduler: match st(&v["s"]) {
            "simple" => Scheduler::Simple(l),
            "sat" => Scheduler::Saturating(l),
            _ => Scheduler::Compress(l),
        },
    }
}
fn pre(v: &Value) {
    match st(&v["k"]) {
        "absent" => return,
        "blocked" => return std::fs::write("nightly", "x").unwrap(),
        _ => std::fs::create_dir_all("nightly/data").unwrap(),
    }
    match st(&v["k"]) {
        "nofile" => (),
        "dir" => std::fs::create_dir_all(FILE).unwrap(),
        "rows" => std::fs::write(FILE, Value::Array(arr(if v["raws"].is_null() { &v["rows"] } else { &v["raws"] }).iter().map(|t| serde_json::from_str(st(t)).unwrap()).collect()).to_string()).unwrap(),
        _ => std::fs::write(FILE, st(&v["raw"])).unwrap(),
    }
}
fn run_l<L: SynthLanguage>(h: &Value, rec: &Rec) {
    for s in arr(&h["steps"]) {
        step(rec, s, || {
            let time = || Duration::from_micros(s["time"].as_u64().unwrap());
            let mut one = Map::new();
            let (a, b): (Ruleset<L>, Ruleset<L>) = match st(&s["op"]) {
                "pre" => {
                    pre(s);
                    Default::default()
                }
                "recipe" => {
                    std::fs::create_dir_all("tests/recipes").unwrap();
                    let t: Vec<&str> = arr(&s["lines"]).iter().map(st).collect();
                    let end = if s["nl"] == json!(true) && !t.is_empty() { "\n" } else { "" };
                    std::fs::write(format!("tests/recipes/{}.rs", st(&s["n"])), t.join("\n") + end).unwrap();
                    Default::default()
                }
                _ => (rules(&s["a"]), rules(&s["b"])),
            };
            let names = |r: &Ruleset<L>| json!(r.to_str_vec());
            let ok = catch_unwind(AssertUnwindSafe(|| match st(&s["op"]) {
                "baseline" => logger::write_baseline(&a, st(&s["spec"]), &b, st(&s["base"]), time()),
                "bv" => logger::write_bv_derivability(st(&s["domain"]), b.clone(), time(), a.clone()),
                "ff" => logger::write_ff_phase(phase::<L>(&s["ph"][0]), phase(&s["ph"][1]), phase(&s["ph"][2]), time(), &a),
                _ => (),
            }))
            .is_ok();
            let mut a2 = a.clone();
            if st(&s["op"]) == "bv" {
                a2 = a.partition(|r| r.is_valid()).0;
            }
            if st(&s["op"]) != "ff" {
                one.insert("ab_lhs".into(), json!(answers(&a2, &b, DeriveType::Lhs)));
                one.insert("ab_both".into(), json!(answers(&a2, &b, DeriveType::LhsAndRhs)));
                one.insert("ba_lhs".into(), json!(answers(&b, &a, DeriveType::Lhs)));
                one.insert("ba_both".into(), json!(answers(&b, &a, DeriveType::LhsAndRhs)));
            }
            let (f, rows) = file();
            let last = match rows.last() {
                Some(v) if f["k"] == json!("rows") && ok => row(v).unwrap_or(json!({"ty": "other"})),
                _ => json!({"ty": "none"}),
            };
            json!({"r": "ok", "done": ok, "file": f, "last": last, "one": one, "an": names(&a), "bn": names(&b), "sound": names(&a2)})
        });
    }
}
pub fn run(h: &Value, rec: &Rec) {
    let back = std::env::current_dir().unwrap();
    let dir = scratch("lg");
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    match st(&h["lang"]) {
        "sym" => run_l::<egg::SymbolLang>(h, rec),
        "bv" => run_l::<langs::bv2::Bv>(h, rec),
        l => panic!("lang {}", l),
    }
    std::env::set_current_dir(back).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
}
