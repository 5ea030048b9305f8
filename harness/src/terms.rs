//! Patterns, rules and rulesets of any domain from and to JSON.
use crate::util::*;
use ruler::enumo::{Rule, Ruleset};
use ruler::*;
use serde_json::{json, Value};

pub fn pat<L: SynthLanguage>(v: &Value) -> Pattern<L> {
    e_text(v).parse().unwrap_or_else(|_| panic!("cannot parse {}", e_text(v)))
}
pub fn rule<L: SynthLanguage>(v: &Value) -> Option<Rule<L>> {
    Rule::new(&pat(&v[0]), &pat(&v[1]))
}
pub fn rules<L: SynthLanguage>(v: &Value) -> Ruleset<L> {
    let mut rs = Ruleset::default();
    for r in arr(v) {
        if let Some(r) = rule(r) {
            rs.add(r);
        }
    }
    rs
}
pub fn rule_json<L: SynthLanguage>(r: &Rule<L>) -> Value {
    json!([parse_e(&r.lhs.to_string()), parse_e(&r.rhs.to_string())])
}
pub fn rules_json<L: SynthLanguage>(rs: &Ruleset<L>) -> Value {
    Value::Array(rs.iter().map(rule_json).collect())
}
