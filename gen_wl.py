"""Random histories for the workload family."""
def T(s):
    """text -> JSON s-expression"""
    st, cur = [[]], ""
    for c in s + " ":
        if c in "() ":
            if cur:
                st[-1].append([cur]); cur = ""
            if c == "(":
                st.append(["("])
            elif c == ")":
                x = st.pop(); st[-1].append(x)
        else:
            cur += c
    return st[0][0]

ATOMS = ["a", "b", "c", "x", "y", "1", "+", "f", "*", "?x", "EXPR", "OP", "expr", "X"]

def rterm(r, depth=3, atoms=ATOMS, maxk=3, empty=0.04):
    if depth == 0 or r.random() < 0.35:
        return [r.choice(atoms)]
    if r.random() < empty:
        return ["("]
    return ["("] + [rterm(r, depth - 1, atoms, maxk, empty) for _ in range(r.randint(1, maxk))]

def kin(r, x):
    """atoms easily confused with x"""
    return r.choice([x + "'", x + "1", x.swapcase(), x.lower(), x.upper(), x + x, "?" + x, x[:-1] or "z", "_" + x, x + "_", x[::-1], x + "*", x.capitalize()]) or "z"
def sprinkle(r, t, xs, p):
    """replace some atoms of t by kin of xs"""
    if t[0] == "(": return ["("] + [sprinkle(r, u, xs, p) for u in t[1:]]
    return [kin(r, r.choice(xs))] if r.random() < p else t
def widen(r, t, p=0.3):
    """some lists of t made long"""
    if t[0] != "(": return t
    ks = [widen(r, u, p) for u in t[1:]]
    if ks and r.random() < p:
        ks += [r.choice(ks + [["a"], ["b"]]) for _ in range(r.randint(1, 6))]
        if r.random() < 0.5: r.shuffle(ks)
    return ["("] + ks

def rpat(r, depth=2, atoms=("a", "b", "x", "+", "f", "1")):
    k = r.random()
    if depth == 0 or k < 0.45:
        j = r.random()
        if j < 0.2: return ["*"]
        if j < 0.6: return ["?", r.choice("xyz")]
        return ["=", r.choice(atoms)]
    return ["("] + [rpat(r, depth - 1, atoms) for _ in range(r.randint(1, 3))]

METRICS = ["Atoms", "Lists", "Depth"]
def rfilter(r, depth=2, monotone=False):
    k = r.random()
    if k < 0.08:
        # sizes at and around the smallest possible ones
        return {"k": r.choice(["eq", "eq", "lt"]), "m": r.choice(METRICS), "n": r.choice([0, 1, 1, 2])}
    k = r.random()
    if monotone:
        if depth > 0 and k < 0.35:
            return {"k": "and", "fs": [rfilter(r, depth - 1, True) for _ in range(r.randint(0, 3))]}
        if k < 0.75:
            return {"k": "lt", "m": r.choice(METRICS), "n": r.randint(0, 6)}
        return {"k": "excludes", "p": rpat(r)}
    if depth > 0 and k < 0.35:
        j = r.random()
        if j < 0.4: return {"k": "and", "fs": [rfilter(r, depth - 1) for _ in range(r.randint(0, 3))]}
        if j < 0.7: return {"k": "or", "fs": [rfilter(r, depth - 1) for _ in range(r.randint(0, 3))]}
        return {"k": "inv", "f": rfilter(r, depth - 1)}
    j = r.random()
    if j < 0.25: return {"k": "lt", "m": r.choice(METRICS), "n": r.randint(0, 7)}
    if j < 0.4: return {"k": "eq", "m": r.choice(METRICS), "n": r.randint(0, 6)}
    if j < 0.65: return {"k": "contains", "p": rpat(r)}
    if j < 0.85: return {"k": "excludes", "p": rpat(r)}
    return {"k": "canon", "s": r.sample(["a", "b", "c", "x"], r.randint(1, 4))}

def near(r):
    """filters one step away from those that may be pushed through a plug"""
    m, n, k = r.choice(METRICS), r.randint(0, 4), r.random()
    leaf = lambda: r.choice([{"k": "eq", "m": m, "n": n}, {"k": "lt", "m": m, "n": n}, {"k": "contains", "p": rpat(r, 1)},
                             {"k": "excludes", "p": rpat(r, 1)}, {"k": "canon", "s": r.sample(["a", "b", "x"], r.randint(2, 3))}])
    if k < 0.4: return {"k": "inv", "f": leaf()}
    if k < 0.55: return {"k": "or", "fs": [leaf(), leaf()]}
    if k < 0.75: return {"k": "and", "fs": [{"k": "lt", "m": m, "n": n}, leaf()] if r.random() < 0.5 else [leaf(), {"k": "lt", "m": m, "n": n}]}
    return leaf()
def lts(r):
    """conjunctions of bounds on one measure, close to each other"""
    m, n = r.choice(METRICS), r.randint(0, 3)
    return [{"k": "lt", "m": m, "n": max(0, n + r.choice([-1, 0, 1]))} for _ in range(r.randint(2, 3))]

def rset(r, n=None, depth=2, atoms=ATOMS):
    return [rterm(r, depth, atoms) for _ in range(r.randint(0, 5) if n is None else n)]

def history(r, i, length):
    """mixed builder history over registers 1..6"""
    steps = [{"op": "new", "d": d, "ts": rset(r, depth=r.choice([0, 1, 2, 3]))} for d in (1, 2, 3)]
    if r.random() < 0.5:
        steps.append({"op": "new", "d": 4, "ts": []})
    for _ in range(length):
        k = r.random()
        d, w = r.randint(1, 6), r.choice([1, 2, 3, 4, 5, 6])
        if k < 0.33:
            steps.append({"op": "plug", "d": d, "w": w, "n": r.choice(ATOMS), "p": r.randint(1, 6)})
        elif k < 0.5:
            steps.append({"op": "append", "d": d, "a": w, "b": r.randint(1, 6)})
        elif k < 0.94:
            steps.append({"op": "filter", "d": d, "w": w, "f": rfilter(r, 2, r.random() < 0.5)})
        elif k < 0.97:
            steps.append({"op": "subst", "d": d, "w": w, "s": r.randint(1, 6), "a": r.choice(ATOMS)})
        else:
            steps.append({"op": "new", "d": d, "ts": rset(r)})
    return {"id": i, "steps": steps}

def short(r, i):
    """a plug and one or two filters, over few terms, so that something is left to see"""
    at = ["x", "a", "b", "f"]
    steps = [{"op": "new", "d": 1, "ts": rset(r, r.randint(1, 3), r.choice([0, 1, 2]), at)}, {"op": "new", "d": 2, "ts": rset(r, r.randint(1, 4), r.choice([0, 1, 2]), at)}]
    if r.random() < 0.3:
        steps.append({"op": "plug", "d": 2, "w": 2, "n": "a", "p": 1})
    steps.append({"op": "plug", "d": 3, "w": 1, "n": "x", "p": 2})
    fs = lts(r) if r.random() < 0.3 else [near(r) for _ in range(r.choice([1, 1, 2]))]
    steps += [{"op": "filter", "d": 3, "w": 3, "f": f} for f in fs]
    return {"id": i, "steps": steps}

def chain(r, i, length):
    """one workload built by a long alternation of plugs and filters (deep push-down)"""
    holes = ["x", "y", "EXPR", "OP", "a"]
    steps = [{"op": "new", "d": 1, "ts": rset(r, r.randint(1, 4), 2, ["x", "y", "EXPR", "OP", "b"])}]
    for d in (2, 3):
        steps.append({"op": "new", "d": d, "ts": rset(r, r.randint(1, 4), r.choice([0, 1, 2]), ["a", "b", "x", "1", "f"])})
    for _ in range(length):
        k = r.random()
        if k < 0.4:
            steps.append({"op": "plug", "d": 1, "w": 1, "n": r.choice(holes), "p": r.choice([2, 3, 3, 2, 1, 4])})
        elif k < 0.85:
            j = r.random()
            if j < 0.15:
                steps += [{"op": "filter", "d": 1, "w": 1, "f": f} for f in lts(r)]
            elif j < 0.2:
                steps.append({"op": "filter", "d": 1, "w": 1, "f": {"k": "and", "fs": lts(r)}})
            elif j < 0.5:
                steps.append({"op": "filter", "d": 1, "w": 1, "f": near(r)})
            else:
                steps.append({"op": "filter", "d": 1, "w": 1, "f": rfilter(r, 1, r.random() < 0.7)})
        elif k < 0.93:
            steps.append({"op": "append", "d": 1, "a": r.choice([1, 2]), "b": r.choice([1, 3])})
        else:
            steps.append({"op": "plug", "d": 2, "w": 2, "n": r.choice(holes), "p": 3})
    return {"id": i, "steps": steps}

def plugs(r, i):
    at = ["x", "a", "(", "f"]
    name = r.choice(["x", "x", "*", "?x", "a", "EXPR", "+", "?", "**"])
    def t(depth):
        if depth == 0 or r.random() < 0.3:
            return [r.choice([name, name, "a", "b", "f"])]
        if r.random() < 0.1:
            return ["("]
        return ["("] + [t(depth - 1) for _ in range(r.randint(1, 3))]
    ops = [name, "a", "b", "f", "x", "1"]
    st = [{"op": "new", "d": 1, "ts": [t(r.randint(0, 4)) for _ in range(r.randint(1, 4))]},
          {"op": "new", "d": 2, "ts": rset(r, r.choice([0, 0, 1, 2, 3, 4]), 2, r.choice([ATOMS, ops]))}]
    if r.random() < 0.25:
        st[0]["ts"] = [widen(r, sprinkle(r, t, [name], 0.25), 0.15) for t in st[0]["ts"]]
    # the same operands, reached by other constructions
    for d in (1, 2):
        if r.random() < 0.5:
            st += built(r, d, name)
    st += [{"op": "plug", "d": 3, "w": 1, "n": name, "p": 2},
           {"op": "plug", "d": 4, "w": 3, "n": r.choice(["a", "b", name]), "p": r.choice([2, 1, 5])}]
    if r.random() < 0.3:
        st.append({"op": "plug", "d": 5, "w": r.choice([3, 4]), "n": name, "p": r.choice([1, 2, 3, 4])})
    return {"id": i, "steps": st}
def built(r, d, name):
    """rebuild register d as a filtered (perhaps empty), appended or plugged workload"""
    k = r.random()
    if k < 0.25:
        return [{"op": "filter", "d": d, "w": d, "f": r.choice([{"k": "lt", "m": "Atoms", "n": 0}, {"k": "eq", "m": "Depth", "n": 0},
                 {"k": "contains", "p": ["=", "nowhere"]}, {"k": "or", "fs": []}, {"k": "inv", "f": {"k": "and", "fs": []}}])}]
    if k < 0.5:
        return [{"op": "filter", "d": d, "w": d, "f": rfilter(r, 1, r.random() < 0.5)}]
    if k < 0.7:
        return [{"op": "append", "d": d, "a": r.choice([d, 3]), "b": r.choice([d, 4])}]
    return [{"op": "new", "d": 6, "ts": rset(r, r.randint(0, 2), 1)}, {"op": "plug", "d": d, "w": d, "n": r.choice([name, "a"]), "p": 6}]

def big_plugs(r, i):
    """one plug with thousands of combinations"""
    k, n = r.choice([(2, 46), (2, 70), (3, 13), (3, 17), (4, 8), (5, 5), (6, 4), (7, 3), (11, 2), (1, 3000)])
    t = ["(", ["f"]] + [["x"] for _ in range(k)]
    if k > 2:
        t = ["(", ["g"], ["(", ["f"], ["x"]], t[:-1]] if r.random() < 0.5 else t
    pegs = [["p%d" % j] for j in range(n)]
    return {"id": i, "cap": 6000, "steps": [{"op": "new", "d": 1, "ts": [["a"], t, ["x"]]}, {"op": "new", "d": 2, "ts": pegs},
                               {"op": "plug", "d": 3, "w": 1, "n": "x", "p": 2}]}

def filters(r, i):
    ts = [rterm(r, r.randint(0, 4), ["a", "b", "c", "x", "+", "1"], 4) for _ in range(r.randint(5, 12))]
    if r.random() < 0.3: ts = [widen(r, t) for t in ts]
    if r.random() < 0.15: ts += [sprinkle(r, t, ["a", "b", "x"], 0.3) for t in ts]
    # near-misses: patterns cut out of the terms themselves
    def cut(t, depth):
        k = r.random()
        if k < 0.3: return ["?", r.choice("xy")]
        if k < 0.38: return ["*"]
        if t[0] != "(": return ["*"] if t[0][0] == "?" or t[0] == "*" else ["=", t[0]]
        if depth == 0: return ["?", r.choice("xy")]
        ks = [cut(u, depth - 1) for u in t[1:]]
        if ks and r.random() < 0.25:
            # not quite as long as the list
            j = r.random()
            if j < 0.3: ks.pop()
            elif j < 0.5: ks = ks[:r.randint(1, len(ks))] + [["*"]]
            elif j < 0.7: ks.append(r.choice([["*"], ["?", "x"], ks[-1]]))
            elif j < 0.85: ks = ks[1:]
            else: ks[r.randrange(len(ks))] = ["*"]
        return ["("] + ks
    def sub(t):
        while t[0] == "(" and len(t) > 1 and r.random() < 0.6:
            t = r.choice(t[1:])
        return t
    steps = [{"op": "new", "d": 1, "ts": ts}]
    for _ in range(8):
        if r.random() < 0.5:
            f = {"k": r.choice(["contains", "excludes"]), "p": cut(sub(r.choice(ts)), 3)}
            if r.random() < 0.3: f = {"k": "inv", "f": f}
        else:
            f = rfilter(r, 3)
        steps.append({"op": "filter", "d": r.choice([2, 2, 2, 3]), "w": r.choice([1, 1, 1, 1, 3]), "f": f})
    return {"id": i, "steps": steps}

def canons(r, i):
    syms = r.sample(["a", "b", "c", "d", "e", "x1", "x"], r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]))
    base = rterm(r, r.randint(1, 4), syms + ["+", "1", "z"], 4)
    if r.random() < 0.3 or len(syms) > 3:
        # every symbol occurs
        base = ["(", ["f"]] + [r.choice([[x], ["(", ["+"], [x], [r.choice(syms)]], [x]]) for x in r.sample(syms, len(syms))] + ([base] if r.random() < 0.3 else [])
    import itertools
    ts = []
    pool = ["a", "b", "c", "d"]
    perms = list(itertools.permutations(syms))
    def ren(t, m): return [m.get(t[0], t[0])] if t[0] != "(" else ["("] + [ren(u, m) for u in t[1:]]
    for p in perms if len(perms) <= 24 else r.sample(perms, 20) + [tuple(syms)]:
        ts.append(ren(base, dict(zip(syms, p))))
    ts += [rterm(r, 3, pool + ["+"], 3) for _ in range(6)]
    ts += [sprinkle(r, t, syms, 0.3) for t in r.sample(ts, 2)]
    return {"id": i, "steps": [{"op": "new", "d": 1, "ts": ts},
                               {"op": "filter", "d": 2, "w": 1, "f": {"k": "canon", "s": syms}},
                               {"op": "filter", "d": 3, "w": 2, "f": {"k": "canon", "s": syms}},
                               {"op": "filter", "d": 4, "w": 1, "f": {"k": "canon", "s": list(perms[-1])}}]}

def measure(t, m):
    if t[0] != "(": return 0 if m == "Lists" else 1
    ms = [measure(u, m) for u in t[1:]]
    return {"Atoms": sum(ms), "Lists": sum(ms) + 1, "Depth": max(ms, default=0) + 1}[m]

def grammar_size(ts, hole, m, n, cap):
    """number of derivations with measure <= n (list), None if above cap"""
    def occ(t): return (1 if t[0] == hole else 0) if t[0] != "(" else sum(occ(u) for u in t[1:])
    def plug(t, pegs):
        if t[0] != "(": return pegs if t[0] == hole else [t]
        acc = [["("]]
        for u in t[1:]:
            p = plug(u, pegs)
            acc = [a + [q] for a in acc for q in p]
            if len(acc) > 4 * cap: raise OverflowError
        return acc
    cur = []
    try:
        for _ in range(n + 1):
            nxt = []
            for t in ts:
                nxt += [u for u in plug(t, cur) if measure(u, m) <= n]
                if len(nxt) > cap: return None
            cur = nxt
    except OverflowError:
        return None
    return cur

def grammars(r, i, cap=120):
    while True:
        hole = r.choice(["EXPR", "E", "x"])
        ops = ["f", "g", "+", "OP1", "OP2"]
        nl = r.randint(1, 3)
        prods = [[a] for a in r.sample(["VAR", "VAL", "a", "1"], nl)]
        for _ in range(r.randint(1, 3)):
            k = r.randint(1, 3)
            body = ["(", [r.choice(ops)]]
            for _ in range(k):
                q = r.random()
                if q < 0.7: body.append([hole])
                elif q < 0.85: body.append(["VAR"])
                else: body.append(["(", [r.choice(ops)], [hole]])
            if body not in prods: prods.append(body)
        r.shuffle(prods)
        m, n = r.choice(METRICS), r.randint(1, 5)
        if m == "Depth": n = min(n, 3)
        g = grammar_size(prods, hole, m, n, cap)
        if g is None: continue
        return {"id": i, "steps": [{"op": "new", "d": 1, "ts": prods},
                                   {"op": "iter", "d": 2, "w": 1, "a": hole, "m": m, "n": n}]}

NASTY = ["a", "+", "?x", "=>", "<=>", "1.5", "-1", "#b01", "&&", "||", "~", "a-b", "λ", "'", "sqrt", "@", "\\", "|x|", ".", "0"]
def texts(r, i):
    steps = []
    for _ in range(4):
        t = rterm(r, r.randint(0, 4), NASTY, 4, 0.08)
        steps.append({"op": "print", "t": t})
        cs = []
        def emit(t):
            if t[0] != "(": cs.extend(t[0]); return
            cs.append("("); ws(0)
            for j, u in enumerate(t[1:]):
                if j: ws(1)
                emit(u)
            ws(0); cs.append(")")
        def ws(least):
            n = least + r.choice([0, 0, 0, 1, 2])
            cs.extend(" " for _ in range(n))
        ws(0); emit(t); ws(0)
        steps.append({"op": "parse", "cs": cs})
    ts = [rterm(r, r.randint(0, 3), NASTY, 3, 0.05) for _ in range(r.randint(0, 6))]
    steps += [{"op": "new", "d": 1, "ts": ts}, {"op": "file", "d": 2, "w": 1},
              {"op": "filter", "d": 3, "w": 2, "f": {"k": "lt", "m": "Atoms", "n": 6}},
              {"op": "file", "d": 4, "w": 3, "over": r.choice([1, 2])}]
    if r.random() < 0.4:
        steps += [{"op": "new", "d": 5, "ts": r.sample(ts, len(ts) // 2) + [["z"]]}, {"op": "file", "d": 6, "w": r.choice([5, 3]), "over": r.choice([1, 5])}]
    return {"id": i, "steps": steps}

def substs(r, i):
    return {"id": i, "steps": [
        {"op": "new", "d": 1, "ts": [sprinkle(r, t, ["x", "a"], r.choice([0, 0, 0.2])) for t in rset(r, r.randint(0, 4), 3, ["x", "a", "f", "y", "EXPR"])]},
        {"op": "new", "d": 2, "ts": rset(r, r.choice([0, 1, 2, 3, 4]), 2, ["a", "b", "x", "1"])},
        {"op": "subst", "d": 3, "w": 1, "s": 2, "a": r.choice(["x", "x", "y", "q", "*", "?x", "EXPR", "expr"])},
        {"op": "filter", "d": 4, "w": 3, "f": rfilter(r, 1)},
        {"op": "subst", "d": 5, "w": 4, "s": 1, "a": r.choice(["a", "b"])},
    ]}

def listings(r, i):
    steps = history(r, i, r.randint(2, 5))["steps"]
    return {"id": i, "steps": steps + [{"op": "show", "w": w} for w in r.sample(range(1, 7), 4)]}
def bases(r, i):
    """the grammars recipes start from"""
    n = r.choice([0, 1, 2, 2, 3, 4])
    m, k = r.choice(METRICS), r.randint(1, 4 if n < 3 else 3)
    if m != "Atoms": k = min(k, 2 if n < 2 else 1)
    st = [{"op": "base", "d": 1, "n": n}, {"op": "iter", "d": 2, "w": 1, "a": "EXPR", "m": m, "n": k}]
    if r.random() < 0.6:
        st += [{"op": "filter", "d": 2, "w": 2, "f": {"k": "contains", "p": ["=", "VAR"]}}, {"op": "new", "d": 3, "ts": rset(r, r.randint(0, 3), 0)},
               {"op": "plug", "d": 4, "w": 2, "n": r.choice(["VAR", "VAL", "OP1", "OP3"]), "p": r.choice([3, 3, 5])}]
    return {"id": i, "steps": st}
