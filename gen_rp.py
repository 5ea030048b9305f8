"""Histories in which computations occur again, others in between."""
import gen_eg
GENS = [gen_eg.mins, gen_eg.mins, gen_eg.synths, gen_eg.synths, gen_eg.ffs, gen_eg.recs, lambda r, i: gen_eg.cvecs(r, i),
        lambda r, i: gen_eg.cvecs(r, i, True), gen_eg.extracts, gen_eg.derives, gen_eg.long_derives, gen_eg.vals]
def block(r, lang=None):
    while True:
        h = r.choice(GENS)(r, 0)
        if lang is None or h["lang"] == lang:
            return h["lang"], h["steps"]
def shift(r, steps):
    """the same computation in other registers"""
    p = dict(zip((1, 2, 3, 4), r.sample([1, 2, 3, 4], 4)))
    return [dict(s, **{k: p[s[k]] for k in ("d", "a", "b", "g") if isinstance(s.get(k), int)}) for s in steps]
def again(r, i):
    lang, a = block(r)
    if any(s["op"] == "rec" for s in a):
        a = a[:2]
    a = a[:6] if all(s["op"] == "val" for s in a) else a
    st = list(a)
    for _ in range(r.randint(0, 2)):
        b = block(r, lang)[1][:6]
        st += b
        if r.random() < 0.5:
            st += shift(r, b)
    return {"id": i, "lang": lang, "steps": st + shift(r, a)}
