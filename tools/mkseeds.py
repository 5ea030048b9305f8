#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table below (planted bugs and their demonstrations)."""
import difflib, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# builds demo.rs against the library in ./target and runs it; needs only the built repository
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.70
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
D=$PWD/target/debug/deps
X=()
for c in ruler egg z3 rand rand_pcg serde serde_json; do
  X+=(--extern "$c=$(ls -t "$D"/lib$c-*.rlib | head -1)")
done
cp "$here"/*.rs "$T"/ || exit 9
rustc --edition 2018 -Awarnings -L dependency="$D" "${X[@]}" -o "$T/demo" "$T/demo.rs" || exit 8
cd "$T" && timeout 200 ./demo > out.txt 2> err.txt
rc=$?
tail -3 err.txt
exit $rc
'''
PRE = r'''#![allow(unused)]
use ruler::enumo::*;
use ruler::recipe_utils::*;
use ruler::*;
type S = egg::SymbolLang;
fn p(x: &str) -> Sexp { x.parse().unwrap() }
fn rule(x: &str) -> Rule<S> { Rule::from_string(x).unwrap().0 }
fn rs(x: &[&str]) -> Ruleset<S> { Ruleset::new(x) }
fn terms(w: &Workload) -> Vec<String> {
    let mut v: Vec<String> = w.force().iter().map(|t| t.to_string()).collect();
    v.sort();
    v
}
fn w(x: &[&str]) -> Workload { Workload::new(x) }
fn f(x: &str) -> ruler::enumo::Pattern { x.parse().unwrap() }
fn lim(iter: usize) -> Limits { Limits { iter, node: 100000, match_: 100000 } }
fn names<L: SynthLanguage>(r: &Ruleset<L>) -> Vec<String> {
    let mut v = r.to_str_vec();
    v.sort();
    v
}
fn graph(ts: &[&str]) -> EGraph<S, SynthAnalysis> {
    let mut g = EGraph::default();
    for t in ts {
        g.add_expr(&t.parse().unwrap());
    }
    g.rebuild();
    g
}
fn same<L: SynthLanguage>(g: &EGraph<L, SynthAnalysis>, a: &str, b: &str) -> bool {
    let (a, b) = (g.lookup_expr(&a.parse().unwrap_or_else(|_| panic!())), g.lookup_expr(&b.parse().unwrap_or_else(|_| panic!())));
    a.is_some() && a == b
}
'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, toy=False):
    SEEDS.append((id, prop, needs, breaks, edits, demo, toy))
exec(open(os.path.join(V, "tools", "seeds.txt")).read())
def main(only):
    for id, prop, needs, breaks, edits, demo, toy in SEEDS:
        if only and id not in only:
            continue
        d = os.path.join(V, "seeded", id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = {}
        for fn, a, b in edits:
            s = files.get(fn) or subprocess.check_output(["git", "-C", os.environ.get("R", "/repo"), "show", "HEAD:" + fn], text=True)
            if s.count(a) != 1:
                print("EDIT MATCHES", s.count(a), "TIMES:", id, fn)
            files[fn] = s.replace(a, b, 1)
        out = ""
        for fn, s in files.items():
            o = subprocess.check_output(["git", "-C", os.environ.get("R", "/repo"), "show", "HEAD:" + fn], text=True)
            out += "diff --git a/%s b/%s\n" % (fn, fn)
            out += "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + fn, "b/" + fn))
        open(os.path.join(d, "patch.diff"), "w").write(out)
        script = demo.startswith("#!")
        open(os.path.join(d, "demo.sh"), "w").write(demo if script else SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if not script:
            open(os.path.join(d, "demo.rs"), "w").write(PRE + ("include!(\"toy.rs\");\n" if toy else "") + demo)
        if toy:
            shutil.copy(os.path.join(V, "tools", "toy_demo.rs"), os.path.join(d, "toy.rs"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
main(sys.argv[1:])
