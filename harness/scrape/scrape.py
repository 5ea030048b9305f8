# scrape.py IN OUT [JOBS] : lays out the recorded files as C++ sources in a scratch folder, runs the collector of
# ../../../repo there as an unprivileged user, and records the two lists it writes and the counts it prints.
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SCRIPT = os.path.join(HERE, "../../../repo/scripts/scrape_halide_rules.py")
UID = 65534
GAPS = ["", " ", "\n", "\n        ", " // see rewrite(x, y)\n", "\n\n", " // ) , (\n\t", "  "]

def text(f):
    lay, k, out = f.get("lay") or [1], 0, []
    def gap():
        nonlocal k
        k += 1
        return GAPS[lay[k % len(lay)] % len(GAPS)]
    def toks(ts):
        s = ts[0]
        for t in ts[1:]:
            s += gap() + t
        return s
    for it in f["items"]:
        if it["k"] == "rw":
            ts = ["rewrite("]
            for i, a in enumerate(it["args"]):
                ts += ([","] if i else []) + a
            out.append(toks(ts + [")"]))
        elif it["k"] == "com":
            out.append("// " + "".join(it["toks"]) + "\n")
        else:
            out.append(toks(it["toks"]))
    return (f.get("sep") or "\n").join(out) + f.get("end", "\n")

def lines(fn):
    return ["".join(x.split()) for x in open(fn).read().split("\n") if x.strip()]

def step(s):
    d = tempfile.mkdtemp(prefix="ruler-scrape-", dir="/tmp")
    try:
        os.mkdir(os.path.join(d, "src"))
        for f in s["files"]:
            open(os.path.join(d, "src", f["name"]), "w").write(text(f))
        shutil.copy(SCRIPT, os.path.join(d, "scrape.py"))
        for p in [d, os.path.join(d, "src")]:
            os.chown(p, UID, UID)
        try:
            p = subprocess.run([sys.executable, "scrape.py"], cwd=d, user=UID, group=UID, extra_groups=[], timeout=60,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={"PATH": "/usr/bin:/bin"})
        except subprocess.TimeoutExpired:
            return {"r": "hang"}
        if p.returncode:
            return {"r": "panic", "msg": p.stdout[-300:]}
        try:
            cs = [x.split() for x in p.stdout.split("\n") if x.strip()]
            return {"r": "ok", "plain": lines(os.path.join(d, "out-nc.txt")), "cond": lines(os.path.join(d, "out-c.txt")),
                    "counts": [[os.path.basename(x[0]), int(x[-1])] for x in cs]}
        except (OSError, ValueError) as e:
            return {"r": "panic", "msg": repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def history(h):
    return dict(h, steps=[{"in": s, "out": step(s)} for s in h["steps"]])

def main():
    hs = [json.loads(x) for x in open(sys.argv[1]) if x.strip()]
    with ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 8) as ex, open(sys.argv[2], "w") as f:
        for h in ex.map(history, hs):
            f.write(json.dumps(h) + "\n")
try:
    main()
except Exception as e:
    print(repr(e), file=sys.stderr)
    sys.exit(3)
