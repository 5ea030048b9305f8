"""Sequences of nightly runs."""
WAYS = ["top", "top", "infra", "far", "abs", "rel", "make"]
def ways(r, h):
    for s in h["steps"]:
        s["way"] = r.choice(WAYS)
    h["branch"] = r.choice(["main", "main", "t-1", "x/y"])
    return h
def nights(r, i):
    st, n = [], 0
    for _ in range(r.randint(1, 5)):
        t = r.choice(["ok", "ok", "ok", "late", "early", "nodata", "killed"])
        rows = list(range(n, n + r.choice([0, 1, 2, 3, 8])))
        n += 10
        st.append({"op": "night", "test": t, "pub": r.choice(["ok", "ok", "ok", "fail", "killed"]), "rows": rows,
                   "log": ["l%d-%d" % (n, j) for j in range(r.choice([0, 1, 3]))], "extra": r.choice(["", "", "e%d" % n])})
    return ways(r, {"id": i, "steps": st})
