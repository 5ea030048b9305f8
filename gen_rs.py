"""Histories of ruleset operations."""
from gen_eg import E, show, tvars, size, rt, subst, SYM_RULES, TOPS, BOPS, BV_TRUE, BV_FALSE, BVR, RU, UND_RULES, rrule, leaves

OPN = {"f": 2, "g": 1, "h": 1, "t": 3, "<=": 2, ">=": 2, "<": 2, ">": 2, "->": 2, "=": 2, "==": 2, "-": 1, "--": 2, "!=": 2,
       "sqrt": 1, "if": 3, "+": 2, "*": 2, "/": 2, "&&": 2, "||": 2, "^": 2, ">>": 2, "<<": 2, "<=x": 2, "=x": 2, "//": 2, "#": 1, "\\/": 2, "a.b": 1, "∧": 2, "let": 2}
def anyrule(r, lang, weird=0.5):
    if lang == "sym":
        if r.random() < weird:
            ops = {o: OPN[o] for o in r.sample(list(OPN), 4)}
            lv = ["?x", "?y", "?z", "?foo1", "k", "0", "-1", "=", "<", "1/2"]
            l = rt(r, r.randint(0, 3), lv, ops, 0.25)
            vs = tvars(l)
            q = rt(r, r.randint(0, 3), vs + ["k", "0", "pi", "<", "="] + vs, ops, 0.25)
        else:
            l, q = r.choice(SYM_RULES) if r.random() < 0.6 else rrule(r)
    elif lang == "toy":
        l, q = r.choice(UND_RULES)
    else:
        l, q = r.choice(BV_TRUE + BV_FALSE + BVR)
    if l == q or not set(tvars(q)) <= set(tvars(l)):
        return anyrule(r, lang, weird)
    if set(tvars(l)) <= set(tvars(q)) and r.random() < 0.3:
        l, q = q, l
    return [l, q]
def rev_ok(x):
    return set(tvars(x[0])) == set(tvars(x[1]))
def text(r, x):
    arrows = ["=>", "==>", "==>"] + (["<=>"] * 2 if rev_ok(x) else [])
    sp = lambda: " " * r.choice([1, 1, 1, 2])
    return show(x[0]) + sp() + r.choice(arrows) + sp() + show(x[1])
JUNK = ["", "hello", "(+ ?x ?y)", "# comment", "(f a) = b", "?x -> ?y", "(f ?x) ?x"]
def texts(r, lang, n, weird=0.5):
    out = [text(r, anyrule(r, lang, weird)) for _ in range(n)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        out.insert(r.randint(0, len(out)), r.choice(JUNK))
    return out
def parses(r, i):
    lang = r.choice(["sym", "sym", "sym", "toy", "bv"])
    st = []
    for _ in range(8):
        st.append({"op": "parse", "text": text(r, anyrule(r, lang, 0.8)) if r.random() < 0.93 else r.choice(JUNK)})
    st.append({"op": r.choice(["new", "load"]), "d": 1, "texts": texts(r, lang, r.randint(0, 7), 0.8)})
    st.append({"op": "file", "d": 2, "a": 1})
    st.append({"op": "eq", "a": 1, "b": 2})
    if r.random() < 0.6:
        st += [{"op": "new", "d": 4, "texts": texts(r, lang, r.randint(0, 3), 0.8)}, {"op": "file", "d": 3, "a": r.choice([4, 4, 1]), "over": r.choice([1, 1, 4])}]
    if r.random() < 0.4:
        st += [{"op": "file", "d": 3, "a": 2}, {"op": "eq", "a": 3, "b": 1}]
    return {"id": i, "lang": lang, "steps": st}
def pred(r):
    return {"p": r.choice(["lsize", "lsize", "shrink", "leaf", "leaf", "all", "none"]), "n": r.randint(1, 5),
            "x": r.choice(["?x", "?y", "k", "f", "g", "+", "0"]), "spin": 0}
def hists(r, i):
    lang = r.choice(["sym", "sym", "toy", "bv"])
    pool = [anyrule(r, lang, 0.2) for _ in range(r.randint(2, 8))]
    pool += [[b, a] for a, b in pool if rev_ok([a, b]) and r.random() < 0.6]
    ru = lambda: r.choice(pool)
    reg = lambda: r.randint(1, 4)
    st = [{"op": "new", "d": d, "texts": [text(r, ru()) for _ in range(r.randint(0, 5))]} for d in (1, 2, 3)]
    for _ in range(r.randint(6, 16)):
        k = r.random()
        if k < 0.22: s = {"op": "add", "d": reg(), "rule": ru()}
        elif k < 0.34: s = {"op": "union", "d": reg(), "a": reg(), "b": reg()}
        elif k < 0.44: s = {"op": "extend", "d": reg(), "b": reg()}
        elif k < 0.52: s = {"op": "addall", "d": reg(), "b": reg()}
        elif k < 0.66: s = {"op": "remove", "d": reg(), "b": reg()}
        elif k < 0.78:
            y, n = r.sample([1, 2, 3, 4], 2)
            s = dict({"op": "part", "a": reg(), "y": y, "n_": n}, **pred(r))
        elif k < 0.9: s = {"op": "size", "a": reg(), "rules": r.sample(pool, min(len(pool), 4))}
        elif k < 0.94: s = {"op": "eq", "a": reg(), "b": reg()}
        elif k < 0.97: s = {"op": "file", "d": reg(), "a": reg()}
        else: s = {"op": "new", "d": reg(), "texts": texts(r, lang, r.randint(0, 4), 0.2)}
        st.append(s)
    return {"id": i, "lang": lang, "steps": st}
def parts(r, i):
    """large partitions with delays: many schedules of the thread pool"""
    n = r.choice([2, 3, 5, 8, 9, 16, 17, 33, 40, 65, 90, 130, 150, 260])
    ts = []
    for j in range(n):
        ts.append(r.choice(["(f ?x c%d) => ?x", "(g c%d) => k", "(f ?x ?y) => (f ?y (g (h c%d)))", "(h (g c%d)) => (f k k)"]) % j)
    rules = [RU(t) for t in ts]
    st = [{"op": "new", "d": 1, "texts": ts}]
    for _ in range(3):
        y, nn = r.sample([2, 3, 4], 2)
        p = pred(r)
        if r.random() < 0.6:
            # an arbitrary set of rules: a block, the ends, one rule, every k-th, all but one
            a, b = sorted([r.randrange(n + 1), r.randrange(n + 1)])
            k = r.randint(2, 5)
            keep = r.choice([lambda j: a <= j < b, lambda j: not a <= j < b, lambda j: j < a, lambda j: j == a % n, lambda j: j != b % n,
                             lambda j: j % k == 0, lambda j: j in (0, n - 1)])
            p = {"p": "in", "rules": [rules[j] for j in range(n) if keep(j)], "spin": 0}
        st.append(dict({"op": "part", "a": 1, "y": y, "n_": nn}, **dict(p, spin=r.choice([0, 1, 3, 10, 30]))))
        st.append({"op": "size", "a": y, "rules": []})
    return {"id": i, "lang": "sym", "steps": st}

def bigs(r, i):
    """set operations on large overlapping rulesets"""
    n = r.choice([10, 20, 30, 50, 80])
    rule = lambda j: [["(f ?x c%d)" % j, "?x"], ["(g c%d)" % j, "k"], ["(f ?x ?y)", "(f ?y (g (h c%d)))" % j]][j % 3]
    def block():
        a, b = sorted([r.randrange(n), r.randrange(n)])
        js = list(range(a, b + 1)) if r.random() < 0.6 else r.sample(range(n), r.randint(1, n))
        if r.random() < 0.3:
            r.shuffle(js)
        return js
    st = [{"op": "new", "d": d, "texts": ["%s => %s" % tuple(rule(j)) for j in block()]} for d in (1, 2, 3, 4)]
    reg = lambda: r.randint(1, 4)
    for _ in range(r.randint(4, 9)):
        k = r.random()
        x = RU("%s => %s" % tuple(rule(r.randrange(n))))
        if k < 0.1: s = {"op": "add", "d": reg(), "rule": x}
        elif k < 0.35: s = {"op": "union", "d": reg(), "a": reg(), "b": reg()}
        elif k < 0.6: s = {"op": "extend", "d": reg(), "b": reg()}
        elif k < 0.75: s = {"op": "addall", "d": reg(), "b": reg()}
        elif k < 0.85: s = {"op": "remove", "d": reg(), "b": reg()}
        elif k < 0.92: s = {"op": "size", "a": reg(), "rules": [x]}
        else: s = {"op": "eq", "a": reg(), "b": reg()}
        st.append(s)
    return {"id": i, "lang": "sym", "steps": st}

def listings(r, i):
    """printed rulesets and derivability reports"""
    import gen_lg
    lang = r.choice(["sym", "sym", "toy", "bv"])
    pool = [anyrule(r, lang, 0.2) for _ in range(r.randint(1, 6))]
    pool += [[b, a] for a, b in pool if rev_ok([a, b]) and r.random() < 0.6]
    r.shuffle(pool)
    one = lambda x: show(x[0]) + " => " + show(x[1])
    st = [{"op": "new", "d": 1, "texts": [one(x) for x in pool]}, {"op": "show", "a": 1},
          {"op": "new", "d": 2, "texts": texts(r, lang, r.randint(0, 6), 0.2)}, {"op": "show", "a": 2}]
    y, n = r.sample([3, 4], 2)
    st += [dict({"op": "part", "a": r.choice([1, 2]), "y": y, "n_": n}, **pred(r)), {"op": "show", "a": y},
           {"op": "union", "d": 4, "a": r.choice([1, 2, 3]), "b": r.choice([1, 2, 3])}, {"op": "show", "a": 4}]
    return {"id": i, "lang": lang, "steps": st}
def reports(r, i):
    import gen_lg
    one = lambda x: show(x[0]) + r.choice([" => ", " <=> " if rev_ok(x) else " => "]) + show(x[1])
    rs = gen_lg.srules(r, r.randint(0, 5))
    ag = [[b, a] for a, b in rs if rev_ok([a, b])] + gen_lg.srules(r, r.randint(0, 4), True) + rs[:1]
    r.shuffle(ag)
    st = [{"op": "new", "d": 1, "texts": [show(a) + " => " + show(b) for a, b in rs]}, {"op": "new", "d": 2, "texts": [one(x) for x in ag]}]
    for _ in range(2):
        st.append({"op": "pd", "a": r.choice([1, 1, 1, 2]), "b": r.choice([2, 2, 1]), "ty": r.choice(["lhs", "both"])})
    # growing rules are only compared against
    st = [s if s["op"] != "pd" or s["a"] == 1 else dict(s, a=1) for s in st]
    return {"id": i, "lang": "sym", "steps": st}

def applied(r, i):
    """rules parsed from texts do what the texts say"""
    import gen_eg
    h = gen_eg.runs(r, i, "simple")
    for s in h["steps"]:
        if s["op"] == "run":
            rules, tx = [], []
            for x in s["rules"]:
                if r.random() < 0.5 and rev_ok(x) and [x[1], x[0]] not in rules and x not in rules:
                    rules += [x, [x[1], x[0]]]
                    tx.append(show(x[0]) + " <=> " + show(x[1]))
                else:
                    rules.append(x)
                    tx.append(show(x[0]) + r.choice([" => ", " ==> "]) + show(x[1]))
            s["rules"], s["texts"] = rules, tx
    return h

def corpus(r, i, lines):
    """the rules people wrote down: a stretch of one of the repository's rule files"""
    k = r.randrange(len(lines))
    ts = lines[k:k + r.randint(4, 14)]
    return {"id": i, "lang": "sym", "steps": [{"op": "load", "d": 1, "texts": ts}] + [{"op": "parse", "text": t} for t in ts[:4]] +
            [{"op": "file", "d": 2, "a": 1}, {"op": "eq", "a": 1, "b": 2}, {"op": "new", "d": 3, "texts": list(reversed(ts))},
             {"op": "union", "d": 4, "a": 3, "b": 1}, {"op": "size", "a": 4, "rules": []}]}
def corpora(repo):
    import glob, os
    ls = []
    for f in sorted(glob.glob(os.path.join(repo, "baseline", "*.rules"))):
        with open(f) as fh:
            ls += [x for x in fh.read().split("\n") if x.strip()]
    return ls
