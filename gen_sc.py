"""Source files with rewrites for the collector."""
VARS = ["x", "y", "z", "c0", "c1", "u", "v1"]
OPS = ["+", "-", "*", "/", "<", "<=", "==", "!=", "&&", "||"]
FUNS = ["min(", "max(", "select(", "("]
LACKS = ["broadcast(", "ramp(", "fold(", "IRMatcher::Overflow(", "intrin(", "halving_add(", "shift_right(", "cast(", "is_const("]
def expr(r, d, lack=0.0):
    k = r.random()
    if d == 0 or k < 0.25:
        if r.random() < lack:
            return [r.choice(["pos_inf", "neg_inf", "uint_ty"])]
        return [r.choice(VARS)]
    if k < 0.6:
        return expr(r, d - 1, lack) + ["%" if r.random() < lack else r.choice(OPS)] + expr(r, d - 1, lack)
    if k < 0.68:
        return [r.choice(["-", "!"])] + expr(r, d - 1, lack)
    f = r.choice(LACKS) if r.random() < lack else r.choice(FUNS)
    ts = [f] + expr(r, d - 1, lack)
    for _ in range(0 if f == "(" else r.choice([1, 1, 2])):
        ts += [","] + expr(r, d - 1, lack)
    return ts + [")"]
def item(r):
    k = r.random()
    if k < 0.65:
        lack = r.choice([0, 0, 0.05, 0.2])
        return {"k": "rw", "args": [expr(r, r.randint(0, 4), lack) for _ in range(r.choice([2, 2, 3]))]}
    if k < 0.85:
        return {"k": "noise", "toks": r.choice([["||"], ["||"], ["if", "(", "(", "f(", "x", ",", "y", ")", ")", ")", "{"], ["}"], [";"],
                ["auto", " ", "rewrite", "=", "IRMatcher::rewriter(", "x", ",", "y", ")", ";"], ["rewriter(", "x", ",", "y", ")", ";"]])}
    return {"k": "com", "toks": r.choice([["rewrite(", "x", ",", "y", ")"], ["rewrite(", "x"], [")"], ["x", "//", "y"], [","], []])}
def lay(r, f):
    k = r.random()
    f["lay"] = [1] if k < 0.2 else [0] if k < 0.3 else [r.randrange(8) for _ in range(r.randint(2, 9))]
    f["sep"] = r.choice(["\n", "\n", " ", "\n\n  "])
    f["end"] = r.choice(["\n", "", ";\n"])
    return f
def runs(r, i):
    st = []
    for _ in range(2):
        names = r.sample(["a.cpp", "b.cpp", "Simplify_Add.cpp", "z-1.cpp"], r.randint(1, 3))
        st.append({"op": "scrape", "files": [lay(r, {"name": n, "items": [item(r) for _ in range(r.choice([0, 1, 2, 4, 8]))]}) for n in names]})
    return {"id": i, "steps": st}
def packs(r, bs):
    """small files, five to a run"""
    return [{"id": i // 5, "steps": [{"op": "scrape", "files": [lay(r, {"name": "f%d.cpp" % j, "items": b}) for j, b in enumerate(bs[i:i + 5])]}]}
            for i in range(0, len(bs), 5)]
