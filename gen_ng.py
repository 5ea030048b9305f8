"""Visits of the nightly pages over reports as the logger writes them."""
SIDES = ["(f ?a)", "?a", "(sin ?a)", "(cos (~ ?a))", "(* ?a ?b)", "(* ?b ?a)", "(+ ?a 0)", "(< ?a ?b)", "(<= ?a ?b)", "(& ?a ?b)", "(&& ?a ?b)", "(<< ?a 1)", "0",
         "(tan ?a)", "(>> ?a ?b)", "(> ?b ?a)", "(--> ?a ?b)", "(/ (sin ?a) (cos ?a))", "(| ?a ?b)", "(^ ?a ?a)", "(g (+ ?a ?b))"]
SPECS = ["bool", "bv4_base", "bv4_fancy", "bv32", "rational_replicate", "rational_best", "exponential", "trig", "halide"]
BASES = ["oopsla", "herbie", "halide"]
def rules(r, n):
    out = []
    for _ in range(n):
        x = r.sample(SIDES, 2)
        if out and r.random() < 0.45: x = list(reversed(r.choice(out)))
        if x not in out: out.append(x)
    if r.random() < 0.5: r.shuffle(out)
    return out
def time(r):
    return r.choice([1, 4, 5, 125, 375, 625, 999, 1000, 2000, 1005, 12345, 59994, 59996, 100000, 999999, 7200005, r.randint(1, 10 ** 6)])
def der(r, dir):
    out = []
    for ty in ("lhs", "lhs_rhs"):
        x = rules(r, r.choice([0, 1, 3, 7, 12]))
        k = r.choice([0, len(x), r.randint(0, len(x))])
        out.append({"dir": dir, "ty": ty, "can": x[:k], "cannot": x[k:], "time": time(r)})
    return out
def some(r): return rules(r, r.choice([0, 1, 2, 4, 6, 9, 14]))
def baseline(r, spec, base):
    d = der(r, "enumo_derives_baseline")
    if not (base == "herbie" and spec.startswith("rational_")): d += der(r, "baseline_derives_enumo")
    return {"ty": "baseline", "base": base, "spec": spec, "loc": r.choice(["-", "1", "12", "345"]), "rules": some(r), "time": time(r), "der": d}
def bvrow(r, w):
    return {"ty": "bv", "domain": r.choice(["BV", "bv"]) + str(w), "rules": some(r), "time": time(r), "sound": some(r), "vt": time(r), "der": der(r, "-")}
def ffrow(r):
    return {"ty": "ff_phases", "ph": [r.choice(["eqsat", "sat", "compress"]) + " (" + r.choice(["R", "A", "E", "R + E", "none"]) + ")" for _ in range(3)],
            "rules": some(r), "time": time(r)}
def visits(r, i):
    st = []
    for _ in range(r.choice([1, 1, 2])):
        pairs = [(s, b) for s in SPECS for b in BASES]
        ps = r.sample(pairs, r.choice([0, 1, 2, 3, 5]))
        if r.random() < 0.4: ps += [(s, "oopsla") for s in ("bool", "bv4_base", "bv32", "rational_replicate") if (s, "oopsla") not in ps]
        rows = [baseline(r, s, b) for s, b in ps] + [bvrow(r, w) for w in r.sample([4, 8, 16, 32, 64, 128], r.choice([0, 1, 2, 4]))]
        rows += [ffrow(r) for _ in range(r.choice([0, 1, 2]))]
        r.shuffle(rows)
        named = [x for x in rows if x["ty"] == "baseline"]
        four = all(any(x["spec"] == s and x["base"] == "oopsla" for x in named) for s in ("bool", "bv4_base", "bv32", "rational_replicate"))
        st.append({"op": "data", "rows": rows})
        page = None
        for _ in range(r.randint(2, 6)):
            k = r.choice(["index", "follow", "follow", "bv", "ff", "click", "click"])
            if k == "click":
                n = {"index": ["herbie"] + ["oopsla"] * (2 * four), "bv": ["bv"], "ff": ["ff"]}.get(page, [])
                if not n: k = "index"
                else:
                    st.append({"op": "click", "n": r.choice(n)})
                    continue
            if k == "follow":
                if not named: k = "bv"
                else:
                    st.append({"op": "follow", "i": r.randint(1, len(named)), "p": r.choice(["rules", "detail"])})
                    page = "follow"
                    continue
            st.append({"op": k})
            page = k
    return {"id": i, "steps": st}
