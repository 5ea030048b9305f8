"""Shared machinery: build the harness, run it, run TLC, write evidence, report violations."""
import json, os, re, shutil, subprocess, sys, time, random, hashlib

V = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(V, "out")
SPEC = os.path.join(V, "spec")
FAMILIES = ["wl", "bv", "rs", "lg", "eg"]
SCRIPTS = {"ng": os.path.join(V, "harness", "pages", "pages.js"), "nr": os.path.join(V, "harness", "night", "nights.js"),
           "sc": os.path.join(V, "harness", "scrape", "scrape.py")}
def command(family):
    return [sys.executable if SCRIPTS[family].endswith(".py") else "node", SCRIPTS[family]] if family in SCRIPTS else [os.path.join(V, "target", "debug", "ruler-" + family)]
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def build(families=()):
    t = time.time()
    if families and set(families) <= set(SCRIPTS):   # scripts, nothing to build
        return 0.0
    p = subprocess.run([os.path.join(V, "harness", "build.sh"), *families], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=1700)
    if p.returncode != 0 or not all(os.path.exists(command(f)[0]) for f in families or FAMILIES):
        sys.stdout.write(p.stdout[-4000:])
        raise ToolError("harness build failed")
    return time.time() - t

class Ctx:
    """One check run of one property."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.design = []
    @property
    def thorough(self):
        return self.tier == "thorough"
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick
    def left(self):
        return self.pick(600, 3600 * 3) - (time.time() - self.t0)

def run_harness(ctx, family, hists, jobs=8, name=None, hang=60, env_extra=None):
    """Execute histories in the real code; returns recorded histories (crash/hang are data)."""
    name = name or family
    res, todo, gen = [], list(hists), 0
    scratch = os.path.join(ctx.dir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    while todo:
        gen += 1
        fi = os.path.join(ctx.dir, f"{name}.in{gen}.ndjson")
        fo = os.path.join(ctx.dir, f"{name}.out{gen}.ndjson")
        with open(fi, "w") as f:
            for h in todo:
                f.write(json.dumps(h) + "\n")
        env = dict(os.environ, SCRATCH=scratch, HANG_SECS=str(hang), RUST_BACKTRACE="0")
        env.update(env_extra or {})
        try:
            p = subprocess.run(command(family) + [fi, fo, str(jobs)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=1500)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        if p.returncode in (2, 3):
            raise ToolError("harness error: " + p.stderr.decode(errors="replace")[-500:])
        got = []
        if os.path.exists(fo):
            with open(fo) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        pass
        os.remove(fi)
        if os.path.exists(fo):
            os.remove(fo)
        done = {h["id"] for h in got}
        res += got
        rest = [h for h in todo if h["id"] not in done]
        if p.returncode == 0:
            break            # hangs may leave unexecuted histories: they are simply not judged
        # the process died: run one at a time and record the crash
        if jobs != 1:
            todo, jobs = rest, 1
            continue
        if not rest:
            break
        c = rest[0]
        c = dict(c)
        c["steps"] = [{"in": c["steps"][0], "out": {"r": "crash"}}]
        res.append(c)
        log(f"harness process died (status {p.returncode}) in history {c['id']}")
        todo = rest[1:]
        if sum(1 for h in res for s in h["steps"] if s["out"].get("r") == "crash") >= 3:
            break
    res.sort(key=lambda h: h["id"])
    return res

def run_tlc(ctx, module, cfg=None, env=None, workers=8, timeout=800, args=(), heap="8g", stack="512m", traces=False):
    """Returns (status, stdout): status in ok / violated; raises ToolError otherwise."""
    md = os.path.join(ctx.dir, "tlc-" + module)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    cmd = ["java", f"-Xmx{heap}", f"-Xss{stack}", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config",
           os.path.join(SPEC, cfg or module + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    shutil.rmtree(md, ignore_errors=True)
    o = p.stdout
    with open(os.path.join(ctx.dir, module + ".tlc.log"), "w") as f:
        f.write(o)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o):
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    ctx.transitions += gen
    ctx.states += dist
    if re.search(r"Error: (Invariant|Action property|Temporal properties|Assumption)", o) or "is violated" in o:
        return "violated", o
    if p.returncode == 0 and ("No error has been found" in o or "simulation" in " ".join(args)):
        return "ok", o
    # a recorded result the specification cannot even read (e.g. a term where a rule is due)
    if traces and re.search(r"Attempted to |The first argument of|is not in the domain", o) \
            and bad_state(o)[0] is not None and not re.search(r"StackOverflow|OutOfMemory", o):
        return "violated", o
    raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + tail_err(o))

def tail_err(o):
    lines = [l for l in o.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting"))]
    return "\n".join(lines[-40:])

def bad_state(o):
    """(h, l) of the last state of the error trace."""
    hs = re.findall(r"^/\\ h = (\d+)", o, re.M)
    ls = re.findall(r"^/\\ l = (\d+)", o, re.M)
    return (int(hs[-1]), int(ls[-1])) if hs and ls else (None, None)

def validate(ctx, module, traces, family, cfg=None, env=None, timeout=800, max_viol=int(os.environ.get("MAX_VIOL", "3")), label="", heap="8g"):
    """Direction B: every recorded history must be a behaviour of the trace specification."""
    if not traces:
        raise ToolError("no traces to validate")
    remaining = list(traces)
    found = 0
    while remaining and found < max_viol:
        fn = os.path.join(ctx.dir, module + ".ndjson")
        with open(fn, "w") as f:
            for h in remaining:
                f.write(json.dumps(h) + "\n")
        e = {"TRACE": fn}
        e.update(env or {})
        st, o = run_tlc(ctx, module, cfg=cfg, env=e, timeout=timeout, heap=heap, traces=True)
        if st == "ok":
            ctx.notes["undecided_steps"] = ctx.notes.get("undecided_steps", 0) + o.count('"UNDECIDED"')
            break
        h, l = bad_state(o)
        if h is None:
            raise ToolError("cannot locate violation:\n" + tail_err(o))
        bad = remaining[h - 1]
        report(ctx, family, module, bad, l - 1, cfg=cfg, env=env)
        found += 1
        remaining.pop(h - 1)
    ctx.traces += len(traces)
    ctx.steps += sum(len(h["steps"]) for h in traces)
    for h in traces[:: max(1, len(traces) // 2)][:2]:
        s = json.dumps(h)
        ctx.samples.append(h if len(s) < 3000 else {"id": h["id"], "head": s[:1500]})
    return found

def known_findings():
    """history key -> text of the unrepaired findings"""
    res = {}
    fn = os.path.join(V, "known_findings.txt")
    for line in open(fn) if os.path.exists(fn) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            res[(m.group(1), m.group(2))] = m.group(3)
    return res

def report(ctx, family, module, hist, at, cfg=None, env=None, note=""):
    inputs = dict(hist)
    inputs["steps"] = [s["in"] if isinstance(s, dict) and "in" in s else s for s in hist["steps"]]
    key = hashlib.sha1(json.dumps(inputs["steps"], sort_keys=True).encode()).hexdigest()[:12]
    kf = known_findings().get((ctx.prop, key))
    if kf is not None:
        ctx.known.append(kf)
        return
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    path = os.path.join(OUT, "replay", f"{ctx.prop}-{key}.json")
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "family": family, "module": module, "cfg": cfg, "env": env,
                   "failing_step": at, "history": inputs, "recorded": hist, "note": note}, f, indent=1)
    step = hist["steps"][at - 1] if at and 0 < at <= len(hist["steps"]) else hist["steps"][-1] if hist["steps"] else {}
    log("disagreement at step", at, ":", json.dumps(step)[:1500])
    ctx.violations.append(path)

def finish(ctx, level="model_checking", extra=None, assumptions=()):
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "events_validated": ctx.steps,
           "samples": ctx.samples[:6]}
    cov.update(ctx.notes)
    cov.update(extra or {})
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        log("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    for v in ctx.violations:
        log(f"VIOLATION property={ctx.prop} replay={v}")
    log(f"{ctx.prop}: {'VIOLATED' if ctx.violations else 'ok'}; {ctx.traces} histories, {ctx.steps} events, "
        f"{ctx.states} states, {ctx.notes.get('undecided_steps', 0)} undecided, {ctx.notes.get('skipped_steps', 0)} skipped, {time.time()-ctx.t0:.1f}s")
    return 1 if ctx.violations else 0

def model(ctx, module, env=None, cfg=None, timeout=800, emit=False, workers=8, args=(), heap="8g"):
    """Exhaustive check of a design configuration; returns the behaviours it printed."""
    s0 = ctx.states
    st, o = run_tlc(ctx, module, cfg=cfg, env=env, timeout=timeout, workers=workers, args=args, heap=heap)
    ctx.design.append({"module": module, "env": env, "states": ctx.states - s0})
    ctx.notes["design_models"] = ctx.design
    if st == "violated":
        raise ToolError("the design model violates its own property:\n" + tail_err(o))
    res = []
    if emit:
        for line in o.splitlines():
            if line.startswith('"') and line.endswith('"') and len(line) > 2:
                try:
                    res.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
    return res
