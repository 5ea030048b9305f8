"""Histories of bit-vector calculations and wide bit-vector terms and rules."""
from gen_eg import rt, BOPS, BV_TRUE, BV_FALSE, RU, E, subst, tvars, leaves, uniq
WIDTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128]
BIN = ["+", "--", "*", "<<", ">>", "&", "|", "^"]
def bits(n, w):
    return [(n >> i) & 1 for i in range(w)]
def vals(r, w, n, shift=False):
    M = 1 << w
    sp = [0, 1, M - 1, M >> 1, (M >> 1) - 1, (M >> 1) + 1, M - 2, w, w - 1, w + 1, 2, 3, 63, 64, 65, 127, 128, 255, 256,
          (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 96)]
    sp = sorted({x for x in sp if 0 <= x < M})
    out = []
    while len(out) < n:
        k = r.random()
        if shift:
            x = r.choice(sp) if k < 0.4 else r.randrange(min(M, 2 * w + 2)) if k < 0.9 else r.randrange(M)
        else:
            x = r.choice(sp) if k < 0.35 else r.randrange(M) if k < 0.75 else r.randrange(M) >> r.randrange(w) if k < 0.9 else \
                (1 << r.randrange(w)) - r.choice([0, 1])
        out.append(x)
    return [bits(x, w) for x in out]
def exhaustive(i, w):
    al = [bits(x, w) for x in range(1 << w)]
    st = [{"op": "tab", "w": w, "o": o, "a": al, "b": al} for o in BIN]
    st += [{"op": "un", "w": w, "o": o, "a": al} for o in "~-"]
    return {"id": i, "w": w, "steps": st}
def calc(r, i, w, n=4):
    st = [{"op": "consts", "w": w}]
    for o in BIN:
        sh = o in ("<<", ">>")
        st.append({"op": "tab", "w": w, "o": o, "a": vals(r, w, n), "b": vals(r, w, n + 4 * sh, sh)})
    for o in "~-":
        st.append({"op": "un", "w": w, "o": o, "a": vals(r, w, 6)})
    st.append({"op": "new", "w": w, "a": [bits(r.getrandbits(128), 128) for _ in range(3)] + [[1] * 128] + vals(r, 128, 3)})
    lits = [str(r.getrandbits(r.randint(1, 128))) for _ in range(4)] + [str((1 << w) - 1), str(1 << (w - 1)), "0", str(2**128 - 1)]
    lits += ["#b" + format(r.getrandbits(r.randint(1, 128)), "b").zfill(r.choice([1, w])) for _ in range(3)]
    st.append({"op": "lit", "w": w, "t": lits})
    st.append({"op": "show", "w": w, "a": vals(r, w, 5)})
    a = vals(r, w, 6)
    st.append({"op": "cmp", "w": w, "a": a, "b": vals(r, w, 5) + [a[5]]})
    st.append({"op": "rnd", "w": w, "n": 8, "seed": r.randrange(10**6)})
    return {"id": i, "w": w, "steps": st}
def lit(r, w):
    return str(r.choice([0, 1, 2, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, w, w - 1, r.getrandbits(w), r.getrandbits(w)]))
def wide_mat(r, i):
    w = r.choice([16, 32, 64, 128])
    vs = r.choice([["x"], ["x"], ["x", "y"], []])
    lv = vs * 2 + [lit(r, w), lit(r, w)]
    ts = uniq([rt(r, r.randint(1, 2 if len(vs) > 1 else 3), lv, BOPS, 0.25) for _ in range(r.randint(1, 3 - len(vs) // 2))])
    return {"id": i, "lang": "bv%d" % w, "steps": [{"op": "mat", "d": 1, "w": w, "ts": ts}]}
def value(t, env, w):
    M = (1 << w) - 1
    if len(t) == 1:
        return env[t[0]] if t[0] in env else int(t[0]) & M
    v = [value(x, env, w) for x in t[1:]]
    a, b = v[0], v[-1]
    if len(v) == 1:
        return (~a if t[0] == "~" else -a) & M
    return {"+": lambda: a + b, "--": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
            "<<": lambda: a << b if b < w else 0, ">>": lambda: a >> b if b < w else 0}[t[0]]() & M
def mix(r, vs, n):
    """a term in which every variable matters, hard to invert"""
    t = [r.choice(vs)]
    for j in range(n):
        v = [vs[j % len(vs)]]
        u = ["+", ["*", v, v], [r.choice(vs)]]
        t = r.choice([["*", ["^", t, v], u], ["*", ["+", t, u], ["^", v, u]], ["+", ["*", t, u], v]])
    return t
def rare(r, w):
    """a rule refuted by few assignments, one of which is supplied"""
    vs = ["?x", "?y"]
    env = {v: r.getrandbits(w) | 1 for v in vs}
    h = mix(r, vs, 2 if w < 64 else r.choice([1, 2]))
    z = ["--", h, [str(value(h, env, w))]]
    ind = [">>", ["~", ["|", z, ["-", z]]], [str(w - 1)]]     # 1 where z is 0
    e = r.choice([["+", ["?x"], ["?y"]], ["?x"], ["^", ["?x"], ["~", ["?y"]]], ["0"]])
    q = r.choice([["+", e, ind], ["--", e, ind], ["^", e, ind], ["+", ind, e]])
    x = [e, q] if set(tvars(q)) <= set(tvars(e)) else [q, e]
    assert value(x[0], env, w) != value(x[1], env, w)
    return {"op": "val", "w": w, "rule": x, "wit": [[v, bits(env[v], w)] for v in vs]}
HARD = [RU(x) for x in """(* ?x ?y) => (+ (* (& ?x ?y) (| ?x ?y)) (* (& ?x (~ ?y)) (& (~ ?x) ?y)))
(* (+ ?x ?y) (+ ?x ?y)) => (+ (* ?x ?x) (+ (* ?y ?y) (* 2 (* ?x ?y))))
(& (* ?x (+ ?x 1)) 1) => 0""".split("\n")]
def hard_val(r, i):
    """rules at the edge of what the solver decides in time"""
    w = r.choice([16, 32, 32, 64])
    st = []
    for _ in range(2):
        if r.random() < 0.6:
            st.append(rare(r, w))
        else:
            x = HARD[0] if r.random() < 0.6 else r.choice(HARD)
            f = {v: r.choice([[v], [v], ["+", [v], [lit(r, w)]], ["^", ["?x"], [v]], ["*", [v], ["?z"]]]) for v in tvars(x[0])}
            x = [subst(x[0], f), subst(x[1], f)]
            st.append({"op": "val", "w": w, "rule": x if r.random() < 0.7 else x[::-1]})
    return {"id": i, "lang": "bv%d" % w, "steps": st}
def wide_val(r, i):
    w = r.choice([16, 32, 64, 128, 128])
    st = []
    for _ in range(6):
        k = r.random()
        if k < 0.45:
            x = r.choice(BV_TRUE if r.random() < 0.55 else BV_FALSE)
            if any(o in str(x) for o in ("'*'",)) and w > 32:
                x = BV_TRUE[0]
            f = {v: r.choice([[v], [v], [lit(r, w)], ["~", [v]], ["+", [v], [lit(r, w)]]]) for v in tvars(x[0])}
            x = [subst(x[0], f), subst(x[1], f)]
        elif k < 0.85:
            # rules about one wide literal
            c = r.getrandbits(w) | (1 << (w - 1 - r.randrange(min(w, 60))))
            M = 1 << w
            x = r.choice([
                [["&", ["?x"], [str(c)]], ["0"]], [["&", ["?x"], [str(M - 1)]], ["?x"]],
                [["|", ["?x"], [str(M - 1)]], [str(M - 1)]], [["+", ["?x"], [str(c)]], ["--", ["?x"], [str((M - c) % M)]]],
                [["^", ["?x"], [str(M - 1)]], ["~", ["?x"]]], [["<<", ["?x"], [str(c)]], ["0"]],
                [["+", ["?x"], [str(c)]], ["?x"]], [["+", ["?x"], [str(c)]], ["+", ["?x"], [str((c + 1) % M)]]],
                [["+", ["?x"], [str(c)]], ["+", [str(c)], ["?x"]]], [["~", [str(c)]], [str(M - 1 - c)]],
                [["-", [str(c)]], [str((M - c) % M)]], [[str(c)], [str(c ^ (1 << r.randrange(w)))]],
                [[">>", ["?x"], [str(w)]], ["0"]], [[">>", ["?x"], [str(w - 1)]], ["0"]], [["<<", ["?x"], [str(w)]], ["0"]]])
        else:
            x = [rt(r, 1, ["?x", "?y", lit(r, w)], BOPS, 0.2), rt(r, r.randint(0, 1), ["?x", "?y", lit(r, w)], BOPS, 0.3)]
            if "*" in str(x):
                continue
        st.append({"op": "val", "w": w, "rule": x})
    return {"id": i, "lang": "bv%d" % w, "steps": st or [{"op": "val", "w": w, "rule": [["?x"], ["?x"]]}]}
