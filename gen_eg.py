"""Random histories for the e-graph families (term format [op, kids...])."""
import itertools
from gen_wl import T

def E(s):
    """text -> term"""
    def c(t):
        return [t[1][0]] + [c(x) for x in t[2:]] if t[0] == "(" else t
    return c(T(s))
def RU(s):
    l, r = s.split("=>")
    return [E(l.strip()), E(r.strip())]
def show(t):
    return t[0] if len(t) == 1 else "(" + t[0] + " " + " ".join(show(x) for x in t[1:]) + ")"
def size(t):
    return 1 + sum(size(x) for x in t[1:])
def tvars(t, acc=None):
    acc = [] if acc is None else acc
    if len(t) == 1:
        if t[0][0] == "?" and t[0] not in acc:
            acc.append(t[0])
    for x in t[1:]:
        tvars(x, acc)
    return acc
def leaves(t):
    return [t[0]] if len(t) == 1 else [y for x in t[1:] for y in leaves(x)]
def subst(t, f):
    if len(t) == 1:
        return f.get(t[0], t)
    return [t[0]] + [subst(x, f) for x in t[1:]]

# ---------------------------------------------------------------- symbolic terms
SOPS = {"f": 2, "g": 1, "h": 1, "t": 3}
def rt(r, depth, leafs, ops=SOPS, pleaf=0.25):
    if depth == 0 or r.random() < pleaf:
        return [r.choice(leafs)]
    o = r.choice(list(ops))
    if o == "t" and r.random() < 0.7:
        o = "f" if "f" in ops else o
    return [o] + [rt(r, depth - 1, leafs, ops, pleaf) for _ in range(ops[o])]
SYM_RULES = [RU(x) for x in """(f ?x ?y) => (f ?y ?x)
(f (f ?x ?y) ?z) => (f ?x (f ?y ?z))
(f ?x (f ?y ?z)) => (f (f ?x ?y) ?z)
(f ?x ?x) => ?x
(g (g ?x)) => ?x
(g (h ?x)) => (h (g ?x))
(h (g ?x)) => (g (h ?x))
(h (h ?x)) => (h ?x)
(f ?x k) => ?x
(f k ?x) => k
(g ?x) => (f ?x ?x)
(g (f ?x ?y)) => (f (g ?x) (g ?y))
(f (g ?x) (g ?y)) => (g (f ?x ?y))
(h ?x) => (g ?x)
(h ?x) => (f ?x c)
(g k) => c
(h c) => k
k => (g c)
c => k
?x => (f ?x k)
(f ?x (g ?x)) => k
(t ?x ?y ?z) => (f ?x (f ?y ?z))
(t ?x ?x ?y) => (f ?x ?y)
(f ?x (h ?y)) => (t ?x ?y ?y)
(t ?x ?y ?z) => (t ?y ?z ?x)
(f ?x ?y) => (h (f ?x ?y))
(f (g ?x) ?x) => (f ?x (g ?x))
(g ?x) => ?x""".split("\n")]
def rrule(r, ops=SOPS, consts=("k", "c")):
    while True:
        l = rt(r, r.randint(1, 2), ["?x", "?y", "?z", consts[0]], ops, 0.3)
        vs = tvars(l)
        rr = rt(r, r.randint(0, 2), (vs or []) + [r.choice(consts)] + (vs or []), ops, 0.35)
        if l != rr and not (len(l) == 1 and l[0][0] != "?" and r.random() < 0.7):
            return [l, rr]
def rrules(r, n, pool=SYM_RULES):
    out = []
    for _ in range(n):
        x = r.choice(pool) if r.random() < 0.65 else rrule(r)
        if x not in out:
            out.append(x)
    return out
LEAF = ["a", "b", "k", "c"]
def build(r, d=1, n=None, depth=3, unions=None, leafs=LEAF):
    ts = [rt(r, r.randint(1, depth), leafs) for _ in range(n or r.randint(1, 4))]
    us = []
    for _ in range(r.choice([0, 0, 1, 1, 2]) if unions is None else unions):
        us.append([rt(r, r.randint(0, 2), leafs), rt(r, r.randint(0, 2), leafs)])
    return {"op": "build", "d": d, "terms": ts, "unions": us}
def inst_term(r, rules, leafs=LEAF):
    """a term that some left side matches"""
    l = r.choice(rules)[0]
    return subst(l, {v: rt(r, r.randint(0, 1), leafs) for v in tvars(l)})
def seeded(r, rules, d=1, **k):
    b = build(r, d, **k)
    for _ in range(r.randint(1, 2)):
        if rules:
            b["terms"].append(inst_term(r, rules))
    if rules and r.random() < 0.4:
        b["unions"].append([inst_term(r, rules), rt(r, 1, LEAF)])
    return b

def runs(r, i, sched):
    rules = rrules(r, r.randint(1, 4))
    st = [seeded(r, rules, 1)]
    g = 1
    for d in range(2, r.choice([3, 3, 4, 5])):
        rs = rules if r.random() < 0.5 else rrules(r, r.randint(1, 3))
        it = r.choice([0, 1, 1, 2, 2, 3])
        if sched == "sat":
            it = r.choice([0, 1, 1, 2])
        st.append({"op": "run", "d": d, "g": g, "s": sched, "it": it, "rules": rs})
        if r.random() < 0.5:
            g = d
    return {"id": i, "lang": "sym", "steps": st}

def edits(r, i):
    """additions and unions one at a time"""
    rules = rrules(r, 2)
    st = [build(r, 1, n=2)]
    for _ in range(r.randint(2, 6)):
        if r.random() < 0.4:
            st.append({"op": "add", "d": 1, "a": rt(r, 3, LEAF)})
        else:
            st.append({"op": "union", "d": 1, "a": rt(r, r.randint(0, 2), LEAF), "b": rt(r, r.randint(0, 2), LEAF)})
    st.append({"op": "run", "d": 2, "g": 1, "s": "simple", "it": r.choice([1, 2]), "rules": rules})
    return {"id": i, "lang": "sym", "steps": st}

def budgets(r, i):
    rules = rrules(r, r.randint(1, 3))
    st = [seeded(r, rules, 1, n=2)]
    n0 = r.randint(3, 14)
    for d in (2, 3, 4):
        st.append({"op": "run", "d": d, "g": 1, "s": "simple" if r.random() < 0.75 else "compress",
                   "it": r.choice([0, 1, 2, 2, 3]), "node": n0 + r.randint(0, 12), "rules": rules})
    return {"id": i, "lang": "sym", "steps": st}
def mlimits(r, i):
    rules = rrules(r, r.choice([1, 1, 2, 3]))
    st = [build(r, 1, n=r.randint(2, 5))]
    for _ in range(r.randint(1, 4)):
        st[0]["terms"].append(inst_term(r, rules))
    for d in (2, 3, 4):
        st.append({"op": "run", "d": d, "g": 1, "s": "simple", "it": r.choice([1, 1, 1, 2, 3]),
                   "match": r.choice([1, 1, 2, 2, 3, 4, 6]), "rules": rules})
    return {"id": i, "lang": "sym", "steps": st}

# long derivations in small e-graphs: links of unary operators and constants
def chain_rules(r):
    grow = r.random() < 0.3      # every link makes a new class, so each needs a round of its own
    n = r.randint(5, 8) if grow else r.randint(3, 7)
    us = r.sample(["u%d" % i for i in range(9)], n + 1)
    x = lambda s: ["s", s]
    rules, goal = [], ["?x"]
    for i in range(n):
        k = r.choice([0.3, 0.5, 0.5, 0.5, 0.5, 0.5]) if grow and i else 0.5 if grow else r.random()
        if k < 0.35:
            rules.append([[us[i], ["?x"]], [us[i + 1], ["?x"]]])
        elif k < 0.75:
            rules.append([[us[i], ["?x"]], [us[i + 1], x(["?x"])]])
            goal = x(goal)
        else:
            # consumes a wrapper made by earlier links
            rules.append([[us[i], x(["?x"])], [us[i + 1], ["?x"]]])
            if goal[0] == "s":
                goal = goal[1]
            else:
                rules[-1] = [[us[i], ["?x"]], [us[i + 1], ["?x"]]]
    if r.random() < 0.4:
        j = r.randrange(n)
        rules.append([[us[j], ["?x"]], [us[j], x(["?x"])]])
    for _ in range(r.choice([0, 0, 1, 2])):
        a, b = r.sample(["k", "c", "a", "b"], 2)
        rules.append(r.choice([[[a], [b]], [["s", [a]], [b]], [["h", [a]], [r.choice(us), [b]]], [[us[-1], ["?x"]], ["?x"]],
                               [["s", ["s", ["?x"]]], ["?x"]], [[a], ["h", [b]]], [["h", [a]], ["h", [b]]],
                               [["s", ["?x"]], ["?x"]]]))
    out = []
    for q in rules:
        if q not in out and q[0] != q[1]:
            out.append(q)
    r.shuffle(out)
    return out, us, goal
def ground_rules(r):
    cs = ["k", "c", "a", "b", "d", "e"]
    t = lambda: r.choice([lambda: [r.choice(cs)], lambda: ["g", [r.choice(cs)]], lambda: ["g", [r.choice(cs)]], lambda: ["h", ["g", [r.choice(cs)]]],
                          lambda: ["f", [r.choice(cs)], [r.choice(cs)]]])()
    ts = [t() for _ in range(r.randint(4, 8))]
    out = []
    for a, b in zip(ts, ts[1:]):
        if a != b and [a, b] not in out:
            out.append([a, b])
    r.shuffle(out)
    return out, ts
def chains(r, i, scheds=("simple",)):
    st = []
    if r.random() < 0.6:
        rules, us, _ = chain_rules(r)
        ts = [[us[0], [r.choice(LEAF)]] for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.5:
            ts.append([r.choice(us), ["s", [r.choice(LEAF)]]])
    else:
        rules, us = ground_rules(r)
        ts = [us[0]] + ([r.choice(us)] if r.random() < 0.3 else [])
        if r.random() < 0.5:
            p, _, _ = chain_rules(r)
            rules = rules + p[:2]
    st.append({"op": "build", "d": 1, "terms": ts, "unions": [] if r.random() < 0.8 else [[ts[0], [r.choice(LEAF)]]]})
    for d in (2, 3, 4):
        st.append({"op": "run", "d": d, "g": 1 if r.random() < 0.8 else d - 1, "s": r.choice(scheds), "it": r.choice([2, 3, 3, 4, 4, 5, 6]), "rules": rules})
    return {"id": i, "lang": "sym", "steps": st}
def long_derives(r, i):
    st = []
    rules, us, goal = chain_rules(r)
    for _ in range(3):
        k = r.random()
        if k < 0.6:
            t = [[us[0], ["?x"]], [us[len(us) - 1], goal]]
        elif k < 0.8:
            t = list(reversed(r.choice(rules)))      # the reverse of a known rule
        else:
            t = [[r.choice(us), ["?x"]], [r.choice(us), ["s", ["?x"]]]]
        if t[0] == t[1] or not set(tvars(t[1])) <= set(tvars(t[0])):
            continue
        st.append({"op": "der", "ty": r.choice(["lhs", "lhs", "both"]), "it": r.choice([1, 2, 3, 4, 5, 6, 7, 8]), "rules": rules, "rule": t})
    return {"id": i, "lang": "sym", "steps": st} if st else long_derives(r, i)

def deep_sats(r, i):
    """saturating rules that need many rounds, or add many nodes, to reach their fixpoint"""
    rules, ts = [], []
    k = r.random()
    if k < 0.6:
        # each level can only be merged after the one below
        a = [r.choice(LEAF)]
        w, t = ["f", a, a], a
        for _ in range(r.randint(5, 13)):
            o = r.choice(["g", "h"])
            w, t = ["f", [o, w], [o, t]], [o, t]
        rules.append(RU("(f ?x ?x) => ?x"))
        ts.append(w)
    if k > 0.4:
        lv = r.sample("abkcde", r.randint(4, 6))
        rules += [RU("(t ?x ?y ?z) => (t ?y ?z ?x)"), RU("(t ?x ?y ?z) => (t ?y ?x ?z)")][:r.choice([1, 2, 2, 2])]
        c = list(itertools.combinations(lv, 3))
        for x in r.sample(c, min(len(c), r.randint(2, 6))):
            x = list(x)
            r.shuffle(x)
            ts.append(["t"] + [[y] for y in x])
        if r.random() < 0.5:
            rules += [RU("(q ?x ?y ?z ?w) => (q ?y ?z ?w ?x)"), RU("(q ?x ?y ?z ?w) => (q ?y ?x ?z ?w)")]
            ts = ts[:r.randint(0, 2)] + [["q"] + [[y] for y in lv[:4]]]
    if r.random() < 0.5:
        rules.append(r.choice([RU("(g ?x) => (h ?x)"), RU("(f ?x ?y) => (f ?y ?x)"), RU("?x => (u0 ?x)"), RU("(t ?x ?y ?z) => (f ?x ?y)")]))
    r.shuffle(rules)
    st = {"op": "run", "d": 2, "g": 1, "s": "sat", "it": r.choice([0, 0, 1]), "rules": rules}
    if r.random() < 0.6:
        st["node"] = r.randint(1, 30)
    return {"id": i, "lang": "sym", "steps": [{"op": "build", "d": 1, "terms": ts, "unions": []}, st]}

VL = ["?x", "?y", "?z"]
NOCONST = [x for x in SYM_RULES]
def derives(r, i):
    rules = rrules(r, r.randint(1, 4))
    st = []
    def target():
        k = r.random()
        if k < 0.3:
            return rrule(r)
        if k < 0.4:
            q = r.choice(rules)
            if set(tvars(q[0])) <= set(tvars(q[1])) and len(q[1]) > 1:
                return [q[1], q[0]]
        # rewrite a term a few times by the rules (likely derivable)
        l = subst(r.choice(rules)[0], {v: rt(r, r.randint(0, 1), VL) for v in VL})
        t = l
        for _ in range(r.randint(1, 3)):
            t = rewrite(r, t, rules)
        if not set(tvars(t)) <= set(tvars(l)) or t == l:
            return rrule(r)
        return [l, t]
    if r.random() < 0.6:
        for _ in range(r.randint(2, 4)):
            st.append({"op": "der", "ty": r.choice(["lhs", "both"]), "it": r.choice([0, 1, 2, 3]),
                       "rules": rules, "rule": target()})
    else:
        ag = []
        for _ in range(r.randint(1, 6)):
            t = target()
            if t not in ag:
                ag.append(t)
        for q in rules:
            if q not in ag and r.random() < 0.3:
                ag.append(q)
        st.append({"op": "split", "ty": r.choice(["lhs", "both"]), "it": r.choice([0, 1, 2, 2]),
                   "rules": rules, "against": ag})
    return {"id": i, "lang": "sym", "steps": st}
def pmatch(p, t, s):
    if p[0][0] == "?" and len(p) == 1:
        if p[0] in s:
            return s if s[p[0]] == t else None
        return dict(s, **{p[0]: t})
    if p[0] != t[0] or len(p) != len(t):
        return None
    for a, b in zip(p[1:], t[1:]):
        s = pmatch(a, b, s)
        if s is None:
            return None
    return s
def rewrite(r, t, rules):
    spots = []
    def walk(u, path):
        for l, rr in rules:
            s = pmatch(l, u, {})
            if s is not None:
                spots.append((path, subst(rr, s)))
        for j, x in enumerate(u[1:], 1):
            walk(x, path + [j])
    walk(t, [])
    if not spots:
        return t
    path, new = r.choice(spots)
    def put(u, p):
        if not p:
            return new
        return u[:p[0]] + [put(u[p[0]], p[1:])] + u[p[0] + 1:]
    return put(t, path)

def sats(r, i):
    st = []
    for _ in range(r.randint(2, 5)):
        rule = r.choice(SYM_RULES) if r.random() < 0.4 else rrule(r)
        st.append({"op": "issat", "rule": rule})
    st.append(seeded(r, [s["rule"] for s in st], 1))
    for s in list(st[:-1]):
        st.append({"op": "run", "d": 2, "g": 1, "s": "simple", "it": r.choice([1, 2]), "rules": [s["rule"]]})
    return {"id": i, "lang": "sym", "steps": st}

# ---------------------------------------------------------------- the toy domain
TOPS = {"+": 2, "*": 2, "/": 2, "~": 1}
def tev(t, env, total=True):
    if len(t) == 1:
        return env[t[0]] if t[0] in env else int(t[0]) % 3
    v = [tev(x, env, total) for x in t[1:]]
    if any(x is None for x in v):
        return None
    o = t[0]
    if o == "+": return (v[0] + v[1]) % 3
    if o == "*": return v[0] * v[1] % 3
    if o == "/":
        return (0 if total else None) if v[1] == 0 else v[0] * v[1] % 3
    if o == "~": return -v[0] % 3
    if o == "g": return (v[0] - v[1]) % 3
    if o == "s": return (v[0] + 1) % 3
    if o == "m": return (v[0] * v[1] * v[1] + v[2]) % 3
def vec(t, vs, total=True, dom=(0, 1, 2)):
    return tuple(tev(t, dict(zip(vs, a)), total) for a in itertools.product(dom, repeat=len(vs)))
_pool = {}
def pool(ops, leafs, vs, mx, key, total=True):
    """all terms up to a size grouped by value vector"""
    if key in _pool:
        return _pool[key]
    by = {1: [[x] for x in leafs]}
    for n in range(2, mx + 1):
        by[n] = []
        for o, a in ops.items():
            for sp in itertools.product(range(1, n), repeat=a):
                if sum(sp) == n - 1:
                    for ks in itertools.product(*[by[s] for s in sp]):
                        by[n].append([o] + list(ks))
    groups = {}
    for n in by:
        for t in by[n]:
            groups.setdefault(vec(t, vs, total), []).append(t)
    _pool[key] = groups
    return groups
def toy_pairs(r, n, leafs, vs, key, ops=TOPS, mx=5, total=True, cond=None):
    g = pool(ops, leafs, vs, mx, key, total)
    ks = [k for k in g if len(g[k]) > 1]
    out = []
    while len(out) < n:
        k = r.choice(ks)
        a, b = r.sample(g[k], 2)
        if cond is None or cond(a, b):
            out.append([a, b])
    return out
def toy_rules(r, n, divp=0.6, total=True):
    """rules that hold in the total reading (x/0 = 0)"""
    out = []
    while len(out) < n:
        a, b = toy_pairs(r, 1, ["?x", "?y", "0", "1"], ["?x", "?y"], ("rules", total), total=total)[0]
        if not set(tvars(b)) <= set(tvars(a)) or (len(a) == 1 and a[0] in "01"):
            continue
        if r.random() < divp and "/" not in show(a) + show(b):
            continue
        if [a, b] not in out:
            out.append([a, b])
    return out
UNDEF = [E(x) for x in ["(/ x 0)", "(/ 1 0)", "(/ y (* 0 x))", "(+ x (/ 1 0))", "(/ 0 0)", "(/ x (+ 1 2))"]]
UND_RULES = [RU(x) for x in """(/ ?x ?y) => (* ?x (/ 1 ?y))
(* ?x (/ 1 ?y)) => (/ ?x ?y)
(* ?x 0) => (/ ?x 0)
(* ?x 0) => 0
(/ ?x 0) => 0
(/ ?x 0) => (* ?x 0)
0 => (/ 1 0)
(+ ?x 0) => (+ ?x (/ 1 0))
(+ ?x ?y) => (+ ?y ?x)
(* ?x ?y) => (* ?y ?x)
(+ ?x 0) => ?x
?x => (+ ?x 0)
(/ ?x 1) => ?x
(/ 0 ?x) => 0
(/ ?x ?y) => (/ (* ?x 1) ?y)
(~ (/ ?x ?y)) => (/ (~ ?x) ?y)
(/ (/ ?x ?y) ?z) => (/ ?x (* ?y ?z))
(* ?x (/ 1 0)) => 0
(~ (~ ?x)) => ?x
(/ ?x ?x) => (* ?x ?x)
(* ?x ?x) => (/ ?x ?x)""".split("\n")]
def undefs(r, i):
    vs = r.choice([["x"], ["x", "y"], ["x"], ["x", "y"], ["x"], ["x", "y"], []])
    lv = vs + ["0", "1"]
    ts = [rt(r, r.randint(1, 3), lv, TOPS) for _ in range(r.randint(1, 3))]
    ts += [u for u in r.sample(UNDEF, r.randint(1, 3)) if set(leaves(u)) <= set(lv + ["2"])]
    rules = []
    for _ in range(r.randint(1, 3)):
        x = r.choice(UND_RULES) if r.random() < 0.65 else toy_rules(r, 1, 0.8)[0]
        if x not in rules:
            rules.append(x)
    for l, _ in rules:
        ts.append(subst(l, {v: [r.choice(lv)] if r.random() < 0.7 else rt(r, 1, lv, TOPS) for v in tvars(l)}))
    us = [p for p in toy_pairs(r, r.choice([0, 0, 1]), ["x", "y", "0", "1"], ["x", "y"], "xy")
          if set(leaves(p[0]) + leaves(p[1])) <= set(lv)]
    st = [{"op": "build", "d": 1, "vars": vs, "terms": ts, "unions": us}]
    for d in (2, 3):
        st.append({"op": "run", "d": d, "g": r.randint(1, d - 1), "s": r.choice(["simple", "simple", "simple", "compress", "sat"]),
                   "it": r.choice([1, 1, 2]), "rules": rules})
    return {"id": i, "lang": r.choice(["toy", "toyf"]), "steps": st}

def datas(r, i):
    """data after additions, unions and runs, toy domain"""
    vs = r.choice([["x"], ["x", "y"]])
    lv = vs + ["0", "1"]
    key, up = "xy", []
    def pr():
        while True:
            p = toy_pairs(r, 1, ["x", "y", "0", "1"], ["x", "y"], key)[0]
            k = r.random()
            if k < 0.12:
                # equal modulo 3; the first repeats a term, the second is between its size with and without sharing
                t, n = rt(r, r.randint(2, 3), lv, TOPS), r.choice([1, 3, 5])
                u = t
                for _ in range(n):
                    u = ["~", u]
                p = [["+", t, t], u]
            elif k < 0.2:
                a, b, c = (rt(r, r.randint(0, 2), lv, TOPS) for _ in range(3))
                p = [["m", a, b, c], ["+", ["*", ["*", a, b], b], c]]
            elif k < 0.35:
                # a quotient and a total term of its size that agrees wherever the quotient is defined
                a, b = rt(r, r.randint(0, 1), lv, TOPS), rt(r, r.randint(0, 2), lv, TOPS)
                q = ["/", a, b]
                for _ in range(r.randint(1, 2)):
                    up.append(r.choice([["~", q], ["+", q, a], ["*", q, q], ["+", ["1"], q], ["/", q, a]]))
                p = [q, r.choice([["*", a, b], ["*", b, a], ["+", ["*", a, b], ["0"]]])]
                if all(set(leaves(x)) <= set(lv) for x in p + up) and r.random() < 0.8:
                    return p
                up.clear()
            if r.random() < 0.5:
                p = p[::-1]
            if set(leaves(p[0]) + leaves(p[1])) <= set(lv):
                return p
    st = [{"op": "build", "d": 1, "vars": vs, "terms": [rt(r, 3, lv, TOPS) for _ in range(r.randint(1, 3))],
           "unions": [pr() for _ in range(r.choice([0, 1, 2]))]}]
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < 0.3:
            st.append({"op": "add", "d": 1, "a": rt(r, 3, lv, TOPS)})
        elif k < 0.75:
            p = pr()
            while up:
                st.append({"op": "add", "d": 1, "a": up.pop()})
            st.append({"op": "union", "d": 1, "a": p[0], "b": p[1]})
        else:
            rules = toy_rules(r, r.randint(1, 2)) + ([r.choice(UND_RULES)] if r.random() < 0.5 else [])
            st.append({"op": "run", "d": 1, "g": 1, "s": r.choice(["simple", "simple", "compress", "sat"]),
                       "it": r.choice([1, 2]), "rules": rules})
    return {"id": i, "lang": r.choice(["toy", "toyf"]), "steps": st}

def itvs(r, i):
    """interval data: every leaf has a hidden value inside its bounds"""
    val = {}
    n = r.randint(2, 4)
    def leaf():
        v = r.randint(-3, 4)
        k = r.random()
        if k < 0.2:
            return str(v) if v >= 0 else "0", max(v, 0)
        lo = "" if r.random() < 0.2 else v - r.choice([0, 0, 1, 2, 4])
        hi = "" if r.random() < 0.2 else v + r.choice([0, 0, 1, 2, 4])
        f = lambda b: str(b).replace("-", "n")
        return f"i{f(lo)}_{f(hi)}", v
    for _ in range(n + 2):
        a, v = leaf()
        if a in val and val[a] != v:
            continue
        val[a] = v
    # hidden values: h is the successor
    ops = {"+": 2, "~": 1, "max": 2, "h": 1}
    def ev(t):
        if len(t) == 1:
            return val[t[0]]
        k = [ev(x) for x in t[1:]]
        return {"+": lambda: k[0] + k[1], "~": lambda: -k[0], "max": lambda: max(k), "h": lambda: k[0] + 1}[t[0]]()
    lv = list(val)
    ts = [rt(r, r.randint(0, 2), lv, ops, 0.3) for _ in range(14)] + [[x] for x in lv]
    groups = {}
    for t in ts:
        groups.setdefault(ev(t), []).append(t)
    few = r.sample(ts, r.randint(3, 6))
    if r.random() < 0.5:
        # parents of the terms that are going to be merged
        few += [r.choice([["+", t, r.choice(ts)], ["+", r.choice(few), t], ["~", t], ["max", t, t]]) for t in few]
        groups = {}
        for t in few + [[x] for x in lv]:
            groups.setdefault(ev(t), []).append(t)
    st = [{"op": "build", "d": 1, "terms": few, "unions": []}]
    for _ in range(r.randint(2, 6)):
        c = [g for g in groups.values() if len(g) > 1]
        if c and r.random() < 0.75:
            a, b = r.sample(r.choice(c), 2)
            st.append({"op": "union", "d": 1, "a": a, "b": b})
        else:
            st.append({"op": "add", "d": 1, "a": r.choice(ts)})
    if r.random() < 0.5:
        st.append({"op": "run", "d": 2, "g": 1, "s": r.choice(["simple", "compress"]), "it": 2,
                   "rules": [RU("(+ ?x ?y) => (+ ?y ?x)"), RU("(max ?x ?y) => (max ?y ?x)"), RU("(~ (~ ?x)) => ?x"),
                             RU("(max ?x ?x) => ?x"), RU("(+ ?x 0) => ?x")][:r.randint(1, 5)]})
    return {"id": i, "lang": "iv", "steps": st}

BOPS = {"+": 2, "--": 2, "*": 2, "-": 1, "~": 1, "<<": 2, ">>": 2, "&": 2, "|": 2, "^": 2}
def mats(r, i, only_bv=False):
    lang = r.choice(["bv1", "bv2", "bv3", "bv4", "bv4", "bv8"] if only_bv else ["toy", "toyf", "toy", "bv1", "bv2", "bv3", "bv4", "bv4", "bv8"])
    bv = lang.startswith("bv")
    w = int(lang[2:]) if bv else 0
    nv = r.choice([0, 1, 1, 2, 2, 3, 4]) if lang in ("toy", "bv1") else r.choice([0, 1, 2, 2, 3]) if w in (0, 1, 2) else r.choice([0, 1, 1, 2])
    vs = r.sample(["x", "y", "z", "a", "q", "xy", "ab", "x1"], nv)
    consts = [str(r.randrange(2 ** w)) for _ in range(2)] if bv else ["0", "1", "2"]
    ops = BOPS if bv else dict(TOPS, g=2, s=1, m=3)
    n = r.choice([0, 1, 2, 3, 4, 5])
    ts = [rt(r, r.randint(0, 3), vs * 2 + consts, ops, 0.3) for _ in range(n)]
    k = r.random()
    if k < 0.1:
        # one long term, its variable anywhere or at the very end
        lang = r.choice(["toy", "toyf", "bv1", "bv2"])
        v, c = r.choice(["x", "y", "z", "ab"]), ["0", "1"]
        o = ["+", "*"] if lang[0] == "t" else ["+", "*", "&", "^", "--"]
        p = r.choice([0, 0, 0.15])
        t = [r.choice(c)]
        for _ in range(r.randint(10, 20)):
            x = [v if r.random() < p else r.choice(c)]
            t = [r.choice(o)] + ([t, x] if r.random() < 0.7 else [x, t])
        ts = [[r.choice(o), t, [v]]] + r.choice([[], [["1"]], [["y"]]])
    elif k < 0.16:
        # many terms, atoms among them
        lang = r.choice(["toy", "toyf", "bv2", "bv4"])
        lv = [r.choice(["x", "y", "z"])] * 2 + ["0", "1", "2", "3"]
        ts = uniq([rt(r, r.choice([0, 1, 1]), lv, BOPS if lang[0] == "b" else dict(TOPS, g=2, s=1, m=3), 0.3) for _ in range(r.randint(17, 40))])
    return {"id": i, "lang": lang, "steps": [{"op": "mat", "d": 1, "ts": ts}]}

def cvecs(r, i, fast=False):
    lang = r.choice(["toy", "toy", "toyf", "bv2", "bv3", "bv1"])
    bv = lang.startswith("bv")
    vs = r.choice([["x"], ["x", "y"], ["x", "y"]])
    consts = ["0", "1"]
    lv = vs * 2 + consts
    ops = dict(BOPS) if bv else TOPS
    if bv:
        ops = {o: BOPS[o] for o in r.sample(list(BOPS), 4)}
    ts = [rt(r, r.randint(1, 2), lv, ops, 0.3) for _ in range(r.randint(3, 9))]
    if not bv:
        # terms defined on complementary inputs, and undefined ones
        ts += r.sample([E(x) for x in ["(/ x x)", "(/ 1 (+ x 2))", "(/ x (+ x 2))", "(/ x 0)", "(/ (* x x) x)",
                                       "(/ 1 x)", "(/ (+ x 2) (+ x 2))", "(/ 0 x)", "(/ 0 (+ x 2))", "1", "x", "0"]], r.randint(1, 5))
        if "y" in vs:
            ts += r.sample([E(x) for x in ["(/ x y)", "(/ y x)", "(* (/ x y) y)", "(/ (* x y) y)", "(/ 1 (* x y))"]], r.randint(0, 3))
        if r.random() < 0.3:
            # terms defined on a single input
            one = lambda: [r.choice("+*"), [r.choice(vs)], [r.choice(lv)]] if r.random() < 0.4 else [r.choice(vs)]
            dn = lambda: E("(+ 1 (~ (* %s %s)))" % ((show(one()),) * 2))
            for _ in range(r.randint(2, 4)):
                ts.append(["/", [r.choice(lv)], ["*", dn(), dn()] if r.random() < 0.6 else dn()])
        ts = [t for t in ts if set(leaves(t)) <= set(vs + ["0", "1", "2"])]
    if not bv and r.random() < 0.12:
        # one large group of equal terms
        g = pool(TOPS, ["x", "y", "0", "1"], ["x", "y"], 5, "xy")
        big = [k for k in g if len(g[k]) > 14]
        ts = uniq(ts[:3] + r.sample(g[r.choice(big)], r.choice([9, 11, 14])))
        ts = [t for t in ts if set(leaves(t)) <= set(lv)] or [["x"]]
    st = [{"op": "mat", "d": 1, "ts": ts}]
    if not bv and r.random() < 0.5:
        st.append({"op": "run", "d": 1, "g": 1, "s": "compress", "it": 2, "rules": toy_rules(r, 2)})
    if bv and r.random() < 0.4:
        st.append({"op": "run", "d": 1, "g": 1, "s": "compress", "it": 2,
                   "rules": [RU(x) for x in ["(+ ?x ?y) => (+ ?y ?x)", "(& ?x ?y) => (& ?y ?x)", "(~ (~ ?x)) => ?x", "(- (- ?x)) => ?x"]]})
    st.append({"op": "cm", "g": 1})
    if fast:
        st.append({"op": "fm", "g": 1})
    return {"id": i, "lang": lang, "steps": st}

XRULES = [RU(x) for x in """(+ ?a 1) => (s ?a)
(s ?a) => (+ ?a 1)
(~ ?a) => (g 0 ?a)
(g 0 ?a) => (~ ?a)
(g ?a ?a) => 0
(+ ?a ?b) => (+ ?b ?a)
(* ?a ?b) => (* ?b ?a)
(+ ?a (g 0 ?b)) => (g ?a ?b)
(+ ?a 0) => ?a
(* ?a 1) => ?a
(* ?a 0) => 0
(s (s (s ?a))) => ?a
(s 0) => 1
(s 1) => 2
(~ (~ ?a)) => ?a
(+ (+ ?a ?b) ?c) => (+ ?a (+ ?b ?c))
(g ?a ?b) => (+ ?a (~ ?b))
(+ ?a ?a) => (~ ?a)
(* ?a 2) => (~ ?a)
(~ 1) => 2""".split("\n")]
XOPS = {"+": 2, "*": 2, "~": 1, "g": 2, "s": 1}
def extracts(r, i):
    if r.random() < 0.25:
        rules = rrules(r, r.randint(1, 4))
        st = [seeded(r, rules, 1), {"op": "run", "d": 2, "g": 1, "s": r.choice(["simple", "compress", "sat"]),
                                    "it": r.choice([1, 2]), "rules": rules}, {"op": "xc", "a": 1, "b": 2}]
        return {"id": i, "lang": "sym", "steps": st}
    vs = ["x", "y"]
    lv = vs * 2 + ["0", "1", "2"]
    rules = r.sample(XRULES, r.randint(2, 6))
    ts = [rt(r, r.randint(1, 2), lv, XOPS, 0.25) for _ in range(r.randint(2, 5))]
    for l, rr in rules:
        if r.random() < 0.6:
            s = {v: [r.choice(lv)] for v in tvars(l)}
            ts += [subst(l, s)] + ([subst(rr, s)] if r.random() < 0.5 else [])
    st = [{"op": "build", "d": 1, "terms": ts},
          {"op": "run", "d": 2, "g": 1, "s": r.choice(["simple", "compress", "compress"]), "it": r.choice([1, 2]), "rules": rules},
          {"op": "xc", "a": 1, "b": 2}]
    if r.random() < 0.3:
        st += [{"op": "run", "d": 3, "g": 2, "s": "compress", "it": 1, "rules": r.sample(XRULES, 3)}, {"op": "xc", "a": 2, "b": 3}]
    return {"id": i, "lang": "toyx", "steps": st}

# ---------------------------------------------------------------- minimisation
def bev(t, env, m):
    if len(t) == 1:
        return env[t[0]] if t[0] in env else int(t[0]) & m
    v = [bev(x, env, m) for x in t[1:]]
    return {"&": lambda: v[0] & v[1], "|": lambda: v[0] | v[1], "^": lambda: v[0] ^ v[1], "~": lambda: ~v[0] & m}[t[0]]()
def holds(q, lang):
    """known rules are true ones"""
    vs = tvars(q[0])
    if lang.startswith("bv"):
        m = 2 ** int(lang[2:]) - 1
        return all(bev(q[0], dict(zip(vs, a)), m) == bev(q[1], dict(zip(vs, a)), m) for a in itertools.product(range(m + 1), repeat=len(vs)))
    return vec(q[0], vs, False) == vec(q[1], vs, False)
def mins(r, i):
    lang = r.choice(["toy", "toyf", "toy", "bv1", "bv2", "toya"])
    bv = lang.startswith("bv")
    cands = []
    def addr(a, b, both=0.6):
        for p in ([a, b], [b, a]):
            if set(tvars(p[1])) <= set(tvars(p[0])) and p[0] != p[1] and p not in cands:
                cands.append(p)
            if r.random() > both:
                break
    n = r.randint(2, 7)
    while len(cands) < n:
        if bv:
            ops = {"&": 2, "|": 2, "^": 2, "~": 1}
            l = rt(r, 2, ["?a", "?b", "0", "1"], ops, 0.35)
            q = rt(r, 2, ["?a", "?b", "0", "1"], ops, 0.35)
            if r.random() < 0.8:
                q = r.choice(BVR)[r.randint(0, 1)] if r.random() < 0.1 else q
                l, q = r.choice(BVR)
                if r.random() < 0.5:
                    q, l = l, q
            addr(l, q)
        elif lang == "toya" and r.random() < 0.5:
            # equal only where one side is defined
            addr(*r.choice(PART), both=1)
        elif r.random() < 0.72:
            a, b = toy_pairs(r, 1, ["?a", "?b", "0", "1"], ["?a", "?b"], "min", ops={"+": 2, "*": 2, "~": 1}, mx=5)[0]
            addr(a, b)
        elif r.random() < 0.4:
            a, b = r.choice(UND_RULES)
            addr(a, b)
        else:
            a = rt(r, 2, ["?a", "?b", "0", "1"], {"+": 2, "*": 2, "~": 1}, 0.35)
            b = rt(r, 1, ["?a", "?b", "0", "1"], {"+": 2, "*": 2, "~": 1}, 0.35)
            addr(a, b)
    r.shuffle(cands)
    prior = []
    if r.random() < 0.5:
        if bv:
            prior = [list(x) for x in r.sample(BVR, r.randint(1, 2))]
        else:
            prior = toy_rules(r, r.randint(1, 2), 0)
        if r.random() < 0.2 and holds(cands[0], lang):
            prior = prior + [cands[0]] if cands[0] not in prior else prior
        prior = [p for p in prior if set(tvars(p[1])) <= set(tvars(p[0]))]
    # rules undefined everywhere are neither valid nor invalid: not part of the domain
    def und(p):
        return not bv and all(x is None for x in vec(p[0], tvars(p[0]), False)) or \
            not bv and all(x is None for x in vec(p[1], tvars(p[1]), False))
    cands = [c for c in cands if not und(c)]
    return {"id": i, "lang": lang, "steps": [{"op": "min", "cands": cands, "prior": prior,
            "s": r.choice(["compress", "compress", "simple", "sat"]), "it": r.choice([1, 2, 2])}]}
PART = [RU(x) for x in """(/ (* ?a ?b) ?b) => (+ ?a (+ ?b (~ ?b)))
(* (/ ?a ?b) ?b) => (* ?a (* ?b ?b))
(/ ?a ?b) => (* ?a ?b)
(/ ?a ?b) => (* ?b ?a)
(/ (* ?a ?a) ?a) => ?a
(/ 1 ?a) => ?a
(~ (/ ?a ?b)) => (* (~ ?a) ?b)
(/ ?a (~ ?b)) => (~ (* ?a ?b))
(+ (/ ?a ?a) ?b) => (+ ?b 1)""".split("\n")]
BVR = [RU(x) for x in """(& ?a ?b) => (& ?b ?a)
(| ?a ?b) => (| ?b ?a)
(^ ?a ?b) => (^ ?b ?a)
(& ?a ?a) => ?a
(| ?a ?a) => ?a
(^ ?a ?a) => 0
(& ?a 0) => 0
(| ?a 0) => ?a
(^ ?a 0) => ?a
(~ (~ ?a)) => ?a
(~ (& ?a ?b)) => (| (~ ?a) (~ ?b))
(~ (| ?a ?b)) => (& (~ ?a) (~ ?b))
(& ?a (| ?a ?b)) => ?a
(| ?a (& ?a ?b)) => ?a
(& ?a (~ ?a)) => 0
(^ ?a ?b) => (| ?a ?b)
(& ?a ?b) => ?a
(^ ?a (^ ?a ?b)) => ?b
(& (& ?a ?b) ?c) => (& ?a (& ?b ?c))""".split("\n")]

# ---------------------------------------------------------------- validator, score, generalise
def vals(r, i):
    lang = r.choice(["bv1", "bv2", "bv3", "bv4", "toy", "bv2", "bv4"])
    st = []
    w = int(lang[2:]) if lang.startswith("bv") else 0
    def rl():
        if w == 0:
            return toy_rules(r, 1)[0] if r.random() < 0.5 else [rt(r, 2, ["?x", "?y", "0", "1"], TOPS), rt(r, 2, ["?x", "?y", "1"], TOPS)]
        lv = ["?x", "?y", "?x", "0", "1", str(2 ** w - 1), str(2 ** (w - 1))] + (["?z"] if w <= 2 else [])
        k = r.random()
        if k < 0.5:
            x = r.choice(BV_TRUE if r.random() < 0.6 else BV_FALSE)
            if w > 2 and len(set(tvars(x[0]) + tvars(x[1]))) > 2:
                x = BV_TRUE[0]
            x = [subst(x[0], {}), subst(x[1], {})]
            if r.random() < 0.4:
                vs = tvars(x[0])
                f = {v: rt(r, 1, lv[:3], BOPS, 0.5) for v in vs}
                x = [subst(x[0], f), subst(x[1], f)]
            return x
        if k < 0.65 and w <= 2:
            # large sides that differ in at most a few places
            t = rt(r, 4, ["?x", "?x", "?y", "1"], BOPS, 0.12)
            while not 9 < size(t) < 32:
                t = rt(r, 4, ["?x", "?x", "?y", "1"], BOPS, 0.12)
            def tweak(u, p):
                if len(u) == 1:
                    return [r.choice(["?x", "?y", "1"])] if r.random() < p else u
                if len(u) == 3 and r.random() < p:
                    return [r.choice([o for o in BOPS if BOPS[o] == 2])] + u[1:] if r.random() < 0.5 else [u[0], u[2], u[1]]
                return [u[0]] + [tweak(x, p) for x in u[1:]]
            return [t, tweak(t, r.choice([0.03, 0.06, 0.1]))]
        return [rt(r, r.randint(1, 2), lv, BOPS, 0.3), rt(r, r.randint(0, 2), lv, BOPS, 0.3)]
    for _ in range(12):
        st.append({"op": "val", "rule": rl()})
    return {"id": i, "lang": lang, "steps": st}
BV_TRUE = [RU(x) for x in """(+ ?x ?y) => (+ ?y ?x)
(* ?x ?y) => (* ?y ?x)
(-- ?x ?x) => 0
(-- ?x ?y) => (+ ?x (- ?y))
(- ?x) => (+ (~ ?x) 1)
(~ (& ?x ?y)) => (| (~ ?x) (~ ?y))
(^ ?x ?y) => (-- (| ?x ?y) (& ?x ?y))
(+ ?x ?y) => (+ (^ ?x ?y) (* (+ 1 1) (& ?x ?y)))
(+ ?x ?y) => (+ (^ ?x ?y) (<< (& ?x ?y) 1))
(<< ?x 0) => ?x
(>> ?x 0) => ?x
(- (- ?x)) => ?x
(- ?x) => (* ?x (- 1))
(| ?x ?y) => (+ (& ?x (~ ?y)) ?y)
(* ?x (+ ?y ?z)) => (+ (* ?x ?y) (* ?x ?z))
(& ?x (| ?y ?z)) => (| (& ?x ?y) (& ?x ?z))
(<< 0 ?x) => 0
(>> 0 ?x) => 0
(~ ?x) => (- (+ ?x 1))
(& ?x ?y) => (& ?y ?x)
(^ ?x ?y) => (& (| ?x ?y) (~ (& ?x ?y)))""".split("\n")]
BV_FALSE = [RU(x) for x in """(-- ?x ?y) => (-- ?y ?x)
(<< ?x ?y) => (<< ?y ?x)
(>> ?x ?y) => (>> ?y ?x)
(>> (<< ?x 1) 1) => ?x
(<< (>> ?x 1) 1) => ?x
(- ?x) => (~ ?x)
(- ?x) => ?x
(~ ?x) => ?x
(+ ?x ?y) => (| ?x ?y)
(* ?x ?x) => ?x
(<< (<< ?x ?y) ?z) => (<< ?x (+ ?y ?z))
(>> (>> ?x ?y) ?z) => (>> ?x (+ ?y ?z))
(& ?x ?y) => (| ?x ?y)
(^ ?x ?y) => (+ ?x ?y)
(<< ?x 1) => (>> ?x 1)
(>> (- ?x) 1) => (- (>> ?x 1))
(<< ?x ?x) => ?x
(>> ?x ?x) => 0""".split("\n")]

def scores(r, i):
    lang = r.choice(["toy", "bv4", "toyf"])
    ops = TOPS if lang != "bv4" else BOPS
    st = []
    def rl():
        lv = ["?x", "?y", "?z", "0", "1", "2"]
        if r.random() < 0.25:
            # big: many variables, up to a hundred nodes on a side
            lv = ["?v%d" % j for j in range(r.choice([2, 5, 8, 30]))] + (["0", "1"] if r.random() < 0.5 else [])
            l = rt(r, r.randint(4, 6), lv, ops, 0.1)
            q = rt(r, r.randint(3, 6), tvars(l) + ["0"], ops, 0.1)
            return [l, q]
        l = rt(r, r.randint(1, 3), lv, ops, 0.3)
        vs = tvars(l) + ["0", "1"]
        return [l, rt(r, r.randint(0, 3), vs, ops, 0.3)]
    def tweak(x):
        """a rule that differs in one criterion or not at all"""
        k = r.random()
        y = [list(x[0]), list(x[1])]
        vs = tvars(x[0])
        if k < 0.25 and vs:
            f = {r.choice(vs): [r.choice(["0", "1"] + vs)]}
            y = [subst(x[0], f), subst(x[1], f)]
        elif k < 0.45:
            y = [x[1], x[0]] if set(tvars(x[0])) <= set(tvars(x[1])) else y
        elif k < 0.7:
            def sw(t):
                if len(t) == 1:
                    return t
                same = [o for o in ops if ops[o] == len(t) - 1]
                return [r.choice(same) if r.random() < 0.5 else t[0]] + [sw(z) for z in t[1:]]
            y = [sw(x[0]), sw(x[1])]
        elif k < 0.85:
            y = [x[0], ["~", x[1]]]
        return y
    for _ in range(20):
        a = rl()
        b = tweak(a) if r.random() < 0.75 else rl()
        st.append({"op": "score", "a": a, "b": b})
    return {"id": i, "lang": lang, "steps": st}

def gens(r, i):
    lang = r.choice(["toy", "bv4", "toyx"])
    ops = {"toy": TOPS, "bv4": BOPS, "toyx": dict(XOPS, m=3)}[lang]
    names = ["x", "y", "z", "a", "b", "c", "d", "v1", "v2", "p", "q", "w"]
    st = []
    for _ in range(15):
        vs = r.sample(names, r.randint(1, 6))
        if r.random() < 0.1:
            vs = ["n%d" % j for j in range(r.choice([10, 26, 27, 28, 40, 53]))]
        lv = vs * 2 + ["0", "1"]
        a, b = rt(r, r.randint(0, 4), lv, ops, 0.2), rt(r, r.randint(0, 4), lv, ops, 0.2)
        if len(vs) > 9:
            a = [vs[0]]
            for v in vs[1:]:
                a = [list(o for o in ops if ops[o] == 2)[0], a, [v]]
        s = {"op": "gen", "a": a, "b": b}
        if r.random() < 0.5:
            s["share"] = 1
        st.append(s)
    return {"id": i, "lang": lang, "steps": st}

# ---------------------------------------------------------------- recipes
def abc(rule):
    """rename pattern variables to ?a ?b .. in order of appearance"""
    vs = tvars(rule[1], tvars(rule[0]))
    f = {v: ["?" + "abcdefgh"[i]] for i, v in enumerate(vs)}
    return [subst(rule[0], f), subst(rule[1], f)]
def valid_prior(r, lang, n, ops=None):
    if lang.startswith("bv"):
        out = [x for x in r.sample(BV_TRUE, n) if len(set(tvars(x[0]))) < 3]
    else:
        out = toy_rules(r, n, 0.15, total=False)
    out = [x for x in out if ops is None or all(o in ops for t in x for o in tops(t))]
    return [abc(x) for x in out]
def tops(t):
    return [] if len(t) == 1 else [t[0]] + [o for x in t[1:] for o in tops(x)]
def uniq(ts):
    out = []
    for t in ts:
        if t not in out:
            out.append(t)
    return out
def synths(r, i):
    lang = r.choice(["toy", "toy", "toyf", "bv1", "bv2", "bv3"])
    bv = lang.startswith("bv")
    vs = r.choice([["x"], ["x", "y"], ["x", "y"], ["x", "y"]])
    allops = BOPS if bv else dict(TOPS, g=2, s=1)
    ops = {o: allops[o] for o in r.sample(list(allops), r.randint(1, 3))}
    lv = vs + r.sample(["0", "1"], r.randint(0, 2))
    if r.random() < 0.5:
        # all terms up to a size
        by = {1: [[x] for x in lv]}
        for n in range(2, 5):
            by[n] = []
            for o, a in ops.items():
                for sp in itertools.product(range(1, n), repeat=a):
                    if sum(sp) == n - 1:
                        for ks in itertools.product(*[by[s] for s in sp]):
                            by[n].append([o] + list(ks))
        ts = [t for n in (1, 2, 3, 4) for t in by[n]]
        if len(ts) > 18:
            ts = r.sample(ts, r.randint(8, 18))
    else:
        ts = [rt(r, r.randint(0, 2), lv, ops, 0.3) for _ in range(r.randint(4, 12))]
    if not bv and r.random() < 0.6:
        # equal pairs
        for _ in range(r.randint(1, 3)):
            p = toy_pairs(r, 1, ["x", "y", "0", "1"], ["x", "y"], ("xyp",), mx=4, total=False)[0]
            ts += [p[0], p[1]]
    ts = uniq([t for t in ts if set(leaves(t)) <= set(vs + ["0", "1"])])
    if not any(set(leaves(t)) & set(vs) for t in ts):
        ts.append(["x"])
    prior = valid_prior(r, lang, r.choice([0, 0, 1, 2]))
    return {"id": i, "lang": lang, "steps": [{"op": "synth", "ts": ts, "prior": prior, "pit": r.choice([1, 2, 2]),
            "mit": r.choice([1, 2, 2]), "fast": r.random() < 0.5, "k": 4}]}

XP = [RU(x) for x in """(+ ?a ?b) => (+ ?b ?a)
(* ?a ?b) => (* ?b ?a)
(~ (~ ?a)) => ?a
(* ?a 1) => ?a
(* ?a 0) => 0
(+ ?a 0) => ?a
(s 0) => 1
(g ?a 0) => ?a
(+ ?a ?a) => (~ ?a)
(s (~ ?a)) => (~ (g ?a 1))
(+ ?a (~ ?a)) => 0
(g ?a ?b) => (+ ?a (~ ?b))""".split("\n")]
def ffs(r, i):
    vs = r.choice([["x"], ["x", "y"], ["x", "y"]])
    lv = vs * 2 + r.sample(["0", "1"], r.randint(0, 2))
    ops = {"+": 2, "~": 1, "*": 2}
    ts = [rt(r, r.randint(1, 2), lv, ops, 0.25) for _ in range(r.randint(1, 4))]
    x = lambda: rt(r, r.choice([0, 0, 1]), lv, {"+": 2, "~": 1}, 0.3)
    seeds = [lambda a, b: [["+", a, ["~", a]], ["0"]], lambda a, b: [["+", a, b], ["+", b, a]],
             lambda a, b: [["+", ["+", ["+", a, ["1"]], ["1"]], ["1"]], a],
             lambda a, b: [["m", a, ["1"], b], ["+", a, b]], lambda a, b: [["m", a, ["1"], b], ["+", b, a]],
             lambda a, b: [["+", a, ["~", b]], ["g", a, b]], lambda a, b: [["~", ["~", a]], a],
             lambda a, b: [["g", a, a], ["0"]], lambda a, b: [["+", ["~", a], a], ["+", b, ["~", b]]],
             lambda a, b: [["s", a], ["+", ["1"], a]]]
    for _ in range(r.randint(1, 3)):
        ts += r.choice(seeds)(x(), x())
    ts = uniq(ts)
    xops = {"+": 2, "~": 1, "*": 2, "/": 2, "m": 3, "g": 2, "s": 1}
    def any_rule():
        while True:
            o = lambda: xops if r.random() < 0.4 else {k: xops[k] for k in "+~*m"}
            q = [rt(r, r.randint(0, 3), ["?a", "?b", "0"], o(), 0.3) for _ in range(2)]
            if q[0] != q[1] and set(tvars(q[1])) <= set(tvars(q[0])):
                return q
    return {"id": i, "lang": "toyx", "steps": [{"op": "ff", "ts": ts, "prior": [abc(p) for p in r.sample(XP, r.choice([0, 0, 1, 2, 3]))],
            "pit": r.choice([1, 2, 2]), "mit": r.choice([1, 2, 2]), "k": 4}] +
            [{"op": "allowed", "rule": any_rule()} for _ in range(2)]}

def recs(r, i, deep=False):
    lang = r.choice(["toy", "toyf", "bv1", "bv2"])
    bv = lang.startswith("bv")
    pool1 = ["~", "-"] if bv else ["~", "s"]
    pool2 = ["+", "&", "|", "^", "--", "*"] if bv else ["+", "*", "g", "/"]
    three = r.random() < 0.35
    ops = [r.sample(pool1, r.choice([0, 1, 1, 2])), r.sample(pool2, r.choice([0, 1, 1, 1]))]
    if three:
        ops.append([] if bv or r.random() < 0.5 else ["m"])
    vs = r.choice([["x"], ["x", "y"], ["a", "b"]])
    vals = r.choice([[], ["0"], ["1"], ["0", "1"]])
    m = r.choice(["Atoms", "Atoms", "Depth", "Lists"])
    mx = {"Atoms": 3, "Depth": 2, "Lists": 1}[m]
    if deep and m == "Atoms" and len(ops[0]) + len(ops[1]) <= 2:
        mx = 4
    if m == "Lists":
        mx = 2 if len(vs) == 1 and len(vals) < 2 else 1
    known = set(o for k in ops for o in k)
    prior = [p for p in valid_prior(r, lang, r.choice([0, 0, 1, 2])) if not (set(tops(p[0]) + tops(p[1])) - set(pool1 + pool2))]
    return {"id": i, "lang": lang, "steps": [{"op": "rec", "m": m, "n": n, "vars": vs, "vals": vals, "ops": ops,
            "prior": prior, "k": 4} for n in range(1, mx + 1)]}
