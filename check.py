#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] | --replay FILE | --build"""
import json, os, sys, traceback
import vlib
from vlib import *
import gen_wl, gen_eg, gen_rs, gen_bv, gen_lg, gen_ng, gen_nr, gen_sc, gen_rp

REG = {}
def prop(*ids):
    def d(f):
        for i in ids:
            REG[i] = f
        return f
    return d

def many(gen, n, *a):
    return [gen(i, *a) for i in range(n)]

@prop("C01", "C02", "C03", "C04", "C05", "C06", "C30")
def wl(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    p = ctx.prop
    hs = []
    def add(f, n):
        for _ in range(n):
            hs.append(f(r, len(hs)))
    def sexps(kind):
        beh = model(ctx, "MCSexp", {"KIND": kind, "DEPTH": "3", "WIDTH": "2"}, emit=True)
        ctx.notes["behaviours_replayed"] = len(beh)
        for b in beh:
            hs.append({"id": len(hs), "steps": b})
    if p == "C01":
        beh = model(ctx, "MCWorkload", {"DEPTH": ctx.pick("2", "3"), "EMIT": "1"}, emit=True)
        ctx.notes["behaviours_replayed"] = len(beh)
        hs += [{"id": i, "steps": b} for i, b in enumerate(beh)]
        add(lambda r, i: gen_wl.history(r, i, r.randint(6, 14)), 500 * k)
        add(lambda r, i: gen_wl.chain(r, i, r.randint(3, 9)), 700 * k)
        add(gen_wl.short, 900 * k)
    elif p == "C02":
        sexps("plug")
        add(gen_wl.plugs, 900 * k)
        add(gen_wl.big_plugs, 10 * k)
    elif p == "C03":
        sexps("filter")
        add(gen_wl.filters, 700 * k)
    elif p == "C04":
        sexps("canon")
        add(gen_wl.canons, 400 * k)
    elif p == "C05":
        beh = model(ctx, "MCGrammar", {"LEVEL": "2"}, emit=True)
        ctx.notes["behaviours_replayed"] = len(beh)
        hs += [{"id": i, "steps": b} for i, b in enumerate(beh)]
        add(gen_wl.grammars, 600 * k)
        add(gen_wl.bases, 60 * k)
    elif p == "C06":
        sexps("text")
        add(gen_wl.texts, 400 * k)
    elif p == "C30":
        sexps("subst")
        add(gen_wl.substs, 600 * k)
    rec = run_harness(ctx, "wl", hs)
    validate(ctx, "TraceWorkload", rec, "wl")
    ctx.notes["skipped_steps"] = sum(1 for h in rec for s in h["steps"] if s["out"]["r"] == "skip")

EG = {  # property: [(generator, quick number)]
    "C09": [(gen_eg.gens, 120)],
    "C10": [(lambda r, i: gen_eg.cvecs(r, i), 300)],
    "C11": [(lambda r, i: gen_eg.cvecs(r, i, True), 300)],
    "C12": [(gen_eg.extracts, 300)],
    "C13": [(lambda r, i: gen_eg.runs(r, i, "simple"), 260), (gen_eg.edits, 120), (gen_eg.chains, 150)],
    "C14": [(lambda r, i: gen_eg.runs(r, i, "sat"), 300), (lambda r, i: gen_eg.chains(r, i, ["sat"]), 200), (gen_eg.deep_sats, 60)],
    "C15": [(lambda r, i: gen_eg.runs(r, i, "compress"), 300), (lambda r, i: gen_eg.chains(r, i, ["simple", "compress", "compress"]), 150)],
    "C16": [(gen_eg.budgets, 150), (gen_eg.mlimits, 150)],
    "C17": [(gen_eg.derives, 300), (gen_eg.long_derives, 250)],
    "C18": [(gen_eg.mins, 500)],
    "C19": [(gen_eg.undefs, 300)],
    "C20": [(gen_eg.datas, 200), (gen_eg.itvs, 250)],
    "C22": [(gen_eg.vals, 80)],
    "C23": [(gen_eg.synths, 300)],
    "C24": [(gen_eg.ffs, 500)],
    "C25": [(gen_eg.recs, 200)],
    "C26": [(gen_eg.mats, 250)],
    "C28": [(gen_eg.sats, 250)],
    "C29": [(gen_eg.scores, 500)],
}
def toyx(x):
    """the same history over the operators of the fast-forwarding domain (s is not allowed in rules)"""
    m = {"f": "+", "g": "s", "a": "x", "b": "y"}
    if isinstance(x, list) and x and isinstance(x[0], str):
        return [m.get(x[0], x[0])] + [toyx(y) for y in x[1:]]
    if isinstance(x, list):
        return [toyx(y) for y in x]
    if isinstance(x, dict):
        return {k: toyx(v) if k in ("terms", "rules", "a", "b") and not isinstance(v, int) else v for k, v in x.items()}
    return x
def behaviours(ctx):
    """every behaviour of the small configurations of the specification, to be replayed"""
    p, r, lv = ctx.prop, ctx.rng, ctx.pick("1", "2")
    def go(module, env, cfg=None):
        seen, out = set(), []
        for b in model(ctx, module, env, cfg=cfg, emit=True, timeout=ctx.pick(600, 7200)):
            j = json.dumps(b, sort_keys=True)
            if j not in seen:
                seen.add(j)
                out.append(b)
        return out
    eg = lambda mode: go("MCEGraph", {"MODE": mode, "LEVEL": lv})
    lang = "sym"
    if p == "C13":
        bs = eg("close") + eg("simple")
    elif p == "C14":
        bs = eg("sat")
    elif p == "C15":
        bs = eg("compress")
    elif p == "C12":
        bs = [toyx(b) + [{"op": "xc", "a": 1, "b": 2}] for m in ("simple", "compress") for b in eg(m)]
        lang = "toyx"
    elif p == "C16":
        bs = []
        for b in eg("simple"):
            x = dict(b[-1], **({"node": r.randint(2, 12)} if r.random() < 0.6 else {"match": r.randint(1, 4)}))
            bs.append(b[:-1] + [x])
    elif p == "C28":
        bs = [b + [{"op": "issat", "rule": q} for q in b[-1]["rules"]] for b in eg("simple")]
    elif p == "C17":
        bs = go("MCEGraph", {"MODE": "der", "LEVEL": lv}, "MCDerive.cfg")
    elif p == "C18":
        bs, lang = go("MCMinimize", {"LEVEL": lv}), "toyf"
    elif p in ("C19", "C20"):
        bs, lang = go("MCAnalysis", {"LEVEL": lv}), "toy"
    elif p == "C23":
        bs, lang = go("MCSynth", {"LEVEL": lv}), "toyf"
    elif p == "C24":
        bs, lang = go("MCFastForward", {"LEVEL": lv}), "toyx"
    elif p in ("C10", "C11"):
        bs, lang = go("MCCvec", {"N": ctx.pick("2", "3"), "EMIT": "1"}), "toyf"
        model(ctx, "MCCvec", {"N": ctx.pick("3", "4"), "EMIT": "0"}, timeout=ctx.pick(600, 7200))
    elif p == "C09":
        # one history per fifty pairs
        ss = [s for b in go("MCGeneral", {"LEVEL": lv}) for s in b]
        bs, lang = [ss[i:i + 50] for i in range(0, len(ss), 50)], "toy"
    elif p == "C29":
        bs, lang = go("MCScore", {"LEVEL": lv}), "toy"
    elif p in ("C25", "C26"):
        bs = go("MCRec" if p == "C25" else "MCMat", {"LEVEL": lv})
        ctx.notes["behaviours_replayed"] = len(bs)
        return [{"id": i, "lang": l[0], "steps": b} for i, (l, b) in enumerate(bs)]
    else:
        return []
    ctx.notes["behaviours_replayed"] = len(bs)
    return [{"id": i, "lang": lang, "steps": b} for i, b in enumerate(bs)]

@prop(*EG)
def eg(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    hs = behaviours(ctx)
    for gen, n in EG[ctx.prop]:
        for _ in range(n * k):
            hs.append(gen(r, len(hs)))
    rec = run_harness(ctx, "eg", hs)
    validate(ctx, "TraceEGraph", rec, "eg", env={"PROP": ctx.prop})
    ctx.notes["skipped_steps"] = sum(1 for h in rec for s in h["steps"] if s["out"]["r"] == "skip")
    if ctx.prop == "C22":
        wide_validator(ctx)

@prop("C07", "C08")
def rs(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    hs = []
    if ctx.prop == "C08":
        bs = model(ctx, "MCRuleset", {"DEPTH": ctx.pick("2", "3")}, emit=True)
        bs = [json.loads(j) for j in sorted({json.dumps(b, sort_keys=True) for b in bs})]
        ctx.notes["behaviours_replayed"] = len(bs)
        hs = [{"id": i, "lang": "sym", "steps": b} for i, b in enumerate(bs)]
    else:
        bs = model(ctx, "MCRuleText", {"LEVEL": "2"}, emit=True)
        ctx.notes["behaviours_replayed"] = len(bs)
        hs = [{"id": i, "lang": "sym", "steps": [s for s in b if s["op"] != "show"]} for i, b in enumerate(bs)]
    for gen, n in {"C07": [(gen_rs.parses, 500)], "C08": [(gen_rs.hists, 500), (gen_rs.parts, 40), (gen_rs.bigs, 60)]}[ctx.prop]:
        for _ in range(n * k):
            hs.append(gen(r, len(hs)))
    if ctx.prop == "C07":
        ls = gen_rs.corpora(os.path.join(vlib.V, "..", "repo"))
        hs += [gen_rs.corpus(r, len(hs) + i, ls) for i in range((40 if ls else 0) * k)]
    rec = run_harness(ctx, "rs", hs)
    validate(ctx, "TraceRuleset", rec, "rs")
    if ctx.prop == "C07":
        rec = run_harness(ctx, "eg", [gen_rs.applied(r, i) for i in range(150 * k)], name="eg")
        validate(ctx, "TraceEGraph", rec, "eg", env={"PROP": "C13"})

@prop("C21")
def bv(ctx):
    r, k = ctx.rng, ctx.pick(1, 8)
    model(ctx, "MCBitVec", {"WIDTH": ctx.pick("4", "6")})
    hs = [gen_bv.exhaustive(i, w) for i, w in enumerate(ctx.pick([1, 2, 3, 4], [1, 2, 3, 4, 5, 6]))]
    for w in gen_bv.WIDTHS:
        for _ in range(3 * k):
            hs.append(gen_bv.calc(r, len(hs), w))
    rec = run_harness(ctx, "bv", hs)
    validate(ctx, "TraceBitVec", rec, "bv")
    rec = run_harness(ctx, "eg", [gen_bv.wide_mat(r, i) for i in range(60 * k)], name="eg")
    validate(ctx, "TraceBitVec", rec, "eg")
    rec = run_harness(ctx, "eg", [gen_eg.mats(r, i, True) for i in range(100 * k)], name="eg")
    validate(ctx, "TraceEGraph", rec, "eg", env={"PROP": "C26"})

@prop("C27")
def lg(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    beh = model(ctx, "MCLogger", {"DEPTH": ctx.pick("2", "3")}, emit=True)
    ctx.notes["behaviours_replayed"] = len(beh)
    hs = [{"id": i, "lang": "sym", "steps": b} for i, b in enumerate(beh)]
    for _ in range(220 * k):
        hs.append(gen_lg.hist(r, len(hs)))
    rec = run_harness(ctx, "lg", hs, jobs=1)
    validate(ctx, "TraceLogger", rec, "lg")

@prop("C31")
def show(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    rec = run_harness(ctx, "wl", [gen_wl.listings(r, i) for i in range(150 * k)], jobs=1)
    validate(ctx, "TraceWorkload", rec, "wl")
    bs = model(ctx, "MCRuleText", {"LEVEL": "2"}, emit=True)
    ctx.notes["behaviours_replayed"] = len(bs)
    hs = [{"id": i, "lang": "sym", "steps": b} for i, b in enumerate(bs)]
    hs += [gen_rs.listings(r, len(hs) + i) for i in range(220 * k)]
    hs += [gen_rs.reports(r, len(hs) + i) for i in range(150 * k)]
    rec = run_harness(ctx, "rs", hs, jobs=1)
    validate(ctx, "TraceRuleset", rec, "rs")

@prop("C32")
def pages(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    beh = model(ctx, "MCNightly", {"LEVEL": ctx.pick("2", "3")}, emit=True)
    ctx.notes["behaviours_replayed"] = len(beh)
    hs = [{"id": i, "steps": b} for i, b in enumerate(beh)]
    hs += [gen_ng.visits(r, len(hs) + i) for i in range(400 * k)]
    rec = run_harness(ctx, "ng", hs, jobs=1)
    validate(ctx, "TraceNightly", rec, "ng")

@prop("C33")
def nights(ctx):
    r, k = ctx.rng, ctx.pick(1, 6)
    beh = model(ctx, "MCNights", {"NIGHTS": ctx.pick("2", "3")}, emit=True)
    beh = [json.loads(j) for j in sorted({json.dumps(b, sort_keys=True) for b in beh})]
    ctx.notes["behaviours_replayed"] = len(beh)
    hs = [gen_nr.ways(r, {"id": i, "steps": b}) for i, b in enumerate(beh)]
    hs += [gen_nr.nights(r, len(hs) + i) for i in range(60 * k)]
    rec = run_harness(ctx, "nr", hs)
    validate(ctx, "TraceNights", rec, "nr")

@prop("C34")
def scrape(ctx):
    r, k = ctx.rng, ctx.pick(1, 12)
    beh = model(ctx, "MCScrape", {"LEVEL": ctx.pick("1", "2")}, emit=True)
    ctx.notes["behaviours_replayed"] = len(beh)
    hs = gen_sc.packs(r, sorted(beh, key=json.dumps))
    hs += [gen_sc.runs(r, len(hs) + i) for i in range(200 * k)]
    rec = run_harness(ctx, "sc", hs)
    validate(ctx, "TraceScrape", rec, "sc")

@prop("C35")
def repeat(ctx):
    r, k = ctx.rng, ctx.pick(1, 10)
    beh = model(ctx, "MCRepeat", {"LEVEL": ctx.pick("1", "2")}, emit=True)
    r.shuffle(beh)
    beh = beh[:ctx.pick(300, 8000)]
    ctx.notes["behaviours_replayed"] = len(beh)
    hs = [{"id": i, "lang": "toyf", "steps": b} for i, b in enumerate(beh)]
    hs += [gen_rp.again(r, len(hs) + i) for i in range(220 * k)]
    # two processes do the same in the same order
    one, two = (run_harness(ctx, "eg", hs, jobs=1, hang=120) for _ in range(2))
    two = {h["id"]: h["steps"] for h in two}
    new = {"in": {"op": "restart"}, "out": {"r": "restart"}}
    rec = [dict(h, steps=h["steps"] + [new] + two.get(h["id"], [])) for h in one]
    validate(ctx, "TraceRepeat", rec, "eg")

def wide_validator(ctx):
    r, k = ctx.rng, ctx.pick(1, 8)
    model(ctx, "MCBitVec", {"WIDTH": ctx.pick("2", "4")})
    rec = run_harness(ctx, "eg", [gen_bv.wide_val(r, i) for i in range(45 * k)], name="eg")
    # the solver may overrun its time limit on these: no answer is no answer
    hard = run_harness(ctx, "eg", [gen_bv.hard_val(r, 45 * k + i) for i in range(12 * k)], name="eg", hang=40, env_extra={"MAX_HANGS": "1000"})
    n = len(hard)
    hard = [h for h in hard if all(s["out"]["r"] != "hang" for s in h["steps"])]
    ctx.notes["hard_rules_without_answer"] = n - len(hard)
    rec += hard
    validate(ctx, "TraceBitVec", rec, "eg")
    ctx.notes["verdicts"] = {v: sum(1 for h in rec for s in h["steps"] if s["out"].get("v") == v) for v in ("Valid", "Invalid", "Unknown")}

# what a check executes
FAM = {"wl": ["wl"], "eg": ["eg"], "rs": ["rs"], "bv": ["bv", "eg"], "lg": ["lg"], "show": ["wl", "rs"], "pages": ["ng"], "nights": ["nr"], "scrape": ["sc"], "repeat": ["eg"]}

def main(argv):
    if argv and argv[0] == "--build":
        log("built in %.1fs" % vlib.build())
        return 0
    if argv and argv[0] == "--replay":
        rp = json.load(open(argv[1]))
        vlib.build([rp["family"]])
        ctx = Ctx(rp["property"], "quick", 1)
        rec = run_harness(ctx, rp["family"], [rp["history"]], jobs=1)
        validate(ctx, rp["module"], rec, rp["family"], cfg=rp.get("cfg"), env=rp.get("env"))
        return finish(ctx)
    p = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        bt = vlib.build(FAM[REG[p].__name__] + (["eg"] if p == "C07" else []))
        ctx = Ctx(p, tier, seed)
        ctx.notes["build_s"] = round(bt, 1)
        REG[p](ctx)
        return finish(ctx)
    except ToolError as e:
        log("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
