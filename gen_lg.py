"""Histories of report logging."""
import json
from gen_eg import E, BV_TRUE, BV_FALSE, tvars
PARTS = [E(x) for x in ["?x", "(g ?x)", "(h ?x)", "(f ?x ?y)", "(f ?y ?x)", "(f ?x ?x)", "(g (g ?x))", "(g (h ?x))", "(h (g ?x))", "(f ?x k)", "(f k ?x)", "k",
                          "(f (g ?x) ?y)", "(f ?x (g ?y))", "(h k)", "(g k)"]]
def size(t): return 1 + sum(size(x) for x in t[1:])
def srule(r, any_=False):
    """rules that do not make terms larger, so saturation ends"""
    while True:
        a, b = r.sample(PARTS, 2)
        if set(tvars(b)) <= set(tvars(a)) and (any_ or size(b) <= size(a)) and len(a) > 1:
            return [a, b]
def srules(r, n, any_=False):
    out = []
    for _ in range(n):
        x = srule(r, any_)
        if x not in out: out.append(x)
    return out
def brules(r, n):
    out = []
    for _ in range(n):
        x = r.choice(BV_TRUE if r.random() < 0.6 else BV_FALSE)
        if len(set(tvars(x[0]))) <= 2 and set(tvars(x[1])) <= set(tvars(x[0])) and x not in out: out.append(x)
    return out
NAMES = ["herbie", "rational_best", "rational_replicate", "bool", "oopsla", "halide", "bv4", "trig"]
OLD = [{"TYPE": "baseline", "spec_name": "x", "time": 0.375}, {"time": 1234.567891}, 7, "plain", [], {"deep": [{"a": None}, True, [1, [2]]]}, {"z": "\u00e9 \\ \"q\"", "a": -3},
       {"t": 12.5}, {}]
BADS = ["[1, 2", "{}", "{\"a\": 1}", " ", "\n", "not json", "[] []", "[1,]", "null"]
def hist(r, i):
    lang = r.choice(["sym", "sym", "sym", "bv"])
    k = r.choice(["absent", "absent", "nofile", "empty", "rows", "rows", "rows", "bad", "dir", "blocked"])
    old = r.sample(OLD, r.randint(0, 4)) if k == "rows" else []
    st = [{"op": "pre", "k": k, "raw": r.choice(BADS) if k == "bad" else "",
           "rows": [norm(x) for x in old], "raws": [json.dumps(x) for x in old]}]
    for n in r.sample(NAMES, r.choice([0, 1, 2])):
        st.append({"op": "recipe", "n": n, "lines": [r.choice(["", "x", "fn f() {}", "  "]) for _ in range(r.choice([0, 1, 2, 9, 10, 14]))] + ["}"],
                   "nl": r.random() < 0.7})
    for _ in range(r.randint(1, 5)):
        t = r.choice([0, 1, 125000, 1500000, 12345678, 800123457, 2000000001])
        op = r.choice(["baseline", "baseline", "ff"] if lang == "sym" else ["bv", "bv", "bv", "baseline", "ff"])
        if lang == "sym":
            a, b = srules(r, r.randint(0, 4)), srules(r, r.randint(0, 4))
        else:
            a, b = brules(r, r.randint(0, 4)), brules(r, r.randint(0, 4))
            b += [x for x in a if x not in b and r.random() < 0.4]
        if op == "baseline":
            s, q = r.sample(NAMES, 2) if r.random() < 0.5 else r.choice([["herbie", "rational_best"], ["rational_best", "herbie"], ["rational_replicate", "herbie"], ["herbie", "rational_replicate"]])
            st.append({"op": op, "spec": s, "base": q, "a": a, "b": b, "time": t})
        elif op == "ff":
            ph = [{"s": r.choice(["simple", "sat", "compress"]), "n": r.choice(["all", "exp", "lifting", "", "a b", "(c)", " x ", "y\t"])} for _ in range(3)]
            st.append({"op": op, "ph": ph, "a": a, "b": [], "time": t})
        else:
            st.append({"op": op, "domain": r.choice(["BV8", "BV128", "x"]), "a": a, "b": b, "time": t})
    return {"id": i, "lang": lang, "steps": st}
def norm(x):
    """as the harness writes rows: keys sorted, numbers with a fraction in millionths"""
    def go(x):
        if isinstance(x, float): return round(x * 1000000)
        if isinstance(x, list): return [go(y) for y in x]
        if isinstance(x, dict): return {k: go(x[k]) for k in sorted(x)}
        return x
    return json.dumps(go(x), separators=(",", ":"), ensure_ascii=False)
