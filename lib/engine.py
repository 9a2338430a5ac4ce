"""Runs one property's plan: model checking of the specification, generation of histories (from the explored
graph and from seeded generators), execution on the real code, trace validation, confirmation, evidence."""
import json, os, re, sys, time, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
import build, run, tour

VERIF = build.VERIF
CPU = 8
EVID = os.environ.get("VT_EVIDENCE", os.path.join(VERIF, "evidence"))

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="vt_")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "tour_transitions": 0, "tour_transitions_in_graph": 0, "trace_states": 0, "models": [], "variants": [], "samples": []}
        self.notes = []
        self.failed = {}
        self.thorough = tier == "thorough"

def subst(name, kv):
    t = open(os.path.join(VERIF, "spec", name)).read()
    for k, v in kv.items():
        t = t.replace("@%s@" % k, str(v))
    m = re.search(r"@[A-Z]+@", t)
    if m:
        raise run.MachineryError("unset %s in %s" % (m.group(0), name))
    return t

def opset(ops):
    return ", ".join('"%s"' % o for o in ops)

# ------------------------------------------------------------------ model checking of the specification
def model(ctx, module, kv, emit=False, label=None, timeout=800, workers=4, heap="6g"):
    cfg = subst(module + ".cfg.in", dict(kv, EMIT="TRUE" if emit else "FALSE"))
    rc, out = run.tlc(module, cfg, ctx.work, timeout=timeout, workers=workers, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        bad = "\n".join(l for l in out.splitlines() if not l.startswith('"['))
        raise run.MachineryError("the specification itself fails: %s %s rc=%s\n%s" % (module, kv, rc, bad[-4000:]))
    gen, dist = run.stats(out)
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["models"].append({"module": module, "constants": {k: str(v)[:120] for k, v in kv.items()}, "distinct_states": dist, "transitions": gen})
    return out

# ------------------------------------------------------------------ jobs
class Job:
    """histories to be run on one build of the code"""
    def __init__(self, variant, hists, fill=165, module="TraceBuf"):
        self.variant, self.hists, self.fill, self.module = variant, hists, fill, module

def trace_cfg(module, variant, prop):
    _, _, grow, hasdef = build.VARIANTS[variant]
    return subst(module + ".cfg.in", {"GROW": grow, "HASDEF": str(hasdef).upper(), "PROP": prop})

def run_chunks(pool, exe, hists, fill, work):
    n = max(1, min(6, len(hists) // 60))
    size = (len(hists) + n - 1) // n
    def one(i):
        d = tempfile.mkdtemp(dir=work)
        try:
            return run.run_driver(exe, hists[i * size:(i + 1) * size], d, fill)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return [one(i) for i in range(n)] if pool is None else [f.result() for f in [pool.submit(one, i) for i in range(n)]]

MAXEV = 70000

def execute(ctx, jobs):
    """-> list of mismatches (owned): (job, history index in job, script history, events, event index, tags)"""
    variants = sorted(set(j.variant for j in jobs))
    exes, failed = {}, {}
    def b(v):
        try:
            return v, build.build(v), None
        except build.BuildError as e:
            return v, None, str(e)
    with ThreadPoolExecutor(4) as p:
        for v, exe, err in p.map(b, variants):
            if err:
                failed[v] = err
            else:
                exes[v] = exe
    ctx.cov["variants"] = sorted(set(ctx.cov["variants"]) | set(exes))
    if failed:
        try:
            build.build("asan")
        except build.BuildError as e:
            raise run.MachineryError("the driver does not build: " + str(e)[:3000])
        for v in failed:
            ctx.notes.append("build failed: %s: %s" % (v, failed[v][:600]))
        ctx.failed = failed
    jobs = [j for j in jobs if j.variant in exes]
    groups = {}
    with ThreadPoolExecutor(CPU) as pool:
        futs = []
        for j in jobs:
            n = max(1, min(6, len(j.hists) // 60))
            size = (len(j.hists) + n - 1) // n
            for i in range(n):
                part = j.hists[i * size:(i + 1) * size]
                if part:
                    futs.append((j, part, pool.submit(run_part, exes[j.variant], part, j.fill, ctx.work)))
        for j, part, f in futs:
            res = f.result()
            key = (j.module, trace_cfg(j.module, j.variant, ctx.prop))
            groups.setdefault(key, []).append((j, part, res))
    # batches of bounded size, validated in parallel
    batches = []
    for (module, cfg), parts in groups.items():
        cur, n = [], 0
        for j, part, res in parts:
            for k, (hid, evs) in enumerate(res):
                cur.append((j, part[k], evs))
                n += len(evs)
                if n >= MAXEV:
                    batches.append((module, cfg, cur)); cur, n = [], 0
        if cur:
            batches.append((module, cfg, cur))
    out = []
    par = min(4, len(batches)) or 1
    def val(bt):
        module, cfg, items = bt
        d = tempfile.mkdtemp(dir=ctx.work)
        r = run.validate(module, cfg, [(str(i), evs) for i, (_, _, evs) in enumerate(items)], d,
                         workers=max(2, CPU // par), heap="5g")
        shutil.rmtree(d, ignore_errors=True)
        return bt, r
    with ThreadPoolExecutor(par) as pool:
        for (module, cfg, items), r in pool.map(val, batches):
            ctx.cov["traces_validated_against_impl"] += len(items)
            ctx.cov["events_validated"] += sum(len(e) for _, _, e in items)
            ctx.cov["trace_states"] += r["distinct"]
            if r["other"]:
                ctx.notes.append("%d histories differ in ways other properties own, e.g. %r" % (len(r["other"]), r["other"][0][2][:3]))
            for hi, ei, tags in r["owned"]:
                j, h, evs = items[hi]
                out.append((j, h, evs, ei, tags))
            for j, h, evs in items[:1] + items[-1:]:
                if len(ctx.cov["samples"]) < 6:
                    ctx.cov["samples"].append({"variant": j.variant, "script": h[2][:12], "first_events": [trim(e) for e in evs[:3]]})
    return out

def trim(e):
    s = json.dumps(e, separators=(",", ":"))
    return s if len(s) < 400 else s[:400] + "..."

def run_part(exe, part, fill, work):
    d = tempfile.mkdtemp(dir=work)
    try:
        return run.run_driver(exe, part, d, fill)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def confirm(ctx, mis):
    """re-runs the failing history on its own, from the current tree; -> (events, event index, tags) or None"""
    j, h, evs, ei, tags = mis
    exe = build.build(j.variant)
    for fill in (j.fill,):
        res = run_part(exe, [h], fill, ctx.work)
        r = run.validate(j.module, trace_cfg(j.module, j.variant, ctx.prop), [("0", res[0][1])], ctx.work, workers=1)
        if r["owned"]:
            hi, ei, tags = r["owned"][0]
            return res[0][1], ei, tags
    return None

def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out

def fingerprint(j, h, ei, evs, tags):
    """identifies a failing call: the operation and its inputs as recorded, and what differed"""
    e = evs[ei] if ei < len(evs) else {}
    key = json.dumps([e.get("op"), sorted(t[1] for t in tags), h[2][:ei + 1]], sort_keys=True)
    return hashlib.sha256(key.encode()).hexdigest()[:16]

def report(ctx, mis):
    """-> replay path of a confirmed violation, or None"""
    kn = dict(known(ctx.prop))
    for v, err in sorted(ctx.failed.items()):
        # the default configuration builds and this supported one does not: no call can do what is promised there
        if v in ("nodef", "userdef", "nofloat"):
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-build-%s.json" % (ctx.prop, v))
            json.dump({"property": ctx.prop, "variant": v, "module": "build", "flags": build.VARIANTS[v][1], "error": err[:3000]}, open(path, "w"), indent=1)
            return path
    for m in mis[:12]:
        try:
            c = confirm(ctx, m)
        except run.MachineryError as e:
            ctx.notes.append("confirmation failed: " + str(e)[:300])
            c = None
        j, h, evs, ei, tags = m
        where = "alone"
        if c is None:
            # not reproducible on its own: it may depend on what ran before in the same process
            exe = build.build(j.variant)
            part = [x for x in j.hists]
            idx = [x[0] for x in part].index(h[0])
            part = part[max(0, idx - 200):idx + 1]
            try:
                res = run_part(exe, part, j.fill, ctx.work)
                r = run.validate(j.module, trace_cfg(j.module, j.variant, ctx.prop), [(str(i), e[1]) for i, e in enumerate(res)], ctx.work, workers=4)
            except run.MachineryError as e:
                ctx.notes.append("confirmation failed: " + str(e)[:300])
                continue
            if not r["owned"]:
                ctx.notes.append("a mismatch did not reproduce and is not reported")
                continue
            hi, ei, tags = r["owned"][0]
            evs = res[hi][1]; h = part[hi]; where = "with the %d histories before it" % hi
        else:
            evs, ei, tags = c
        fp = fingerprint(j, h, ei, evs, tags)
        if fp in kn:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, kn[fp]))
            continue
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (ctx.prop, fp))
        json.dump({"property": ctx.prop, "variant": j.variant, "fill": j.fill, "module": j.module, "reproduces": where,
                   "family": h[1], "script": h[2][:ei + 1], "failing_call": ei, "differs_in": [list(t) for t in tags],
                   "events": evs[max(0, ei - 1):ei + 1], "fingerprint": fp}, open(path, "w"), indent=1)
        return path
    return None

def run_tours(ctx, specs):
    """specs: list of dict(module, kv, budget, maxlen, cap) -> histories; model-checks each and covers its graph"""
    hists = []
    def one(i):
        s = specs[i]
        out = model(ctx, s["module"], s["kv"], emit=True, workers=max(2, CPU // max(1, len(specs))))
        edges = s.get("parse", tour.parse)(out)
        if len(edges) == 0:
            raise run.MachineryError("no transitions emitted")
        h, c, tot = s.get("tours", tour.tours)(edges, ctx.seed * 1000 + i, s.get("maxlen", 90), "t%d_" % i, s.get("budget") or (600000 if ctx.thorough else 60000))
        return len(edges), c, h
    with ThreadPoolExecutor(4) as p:
        for n, c, h in p.map(one, range(len(specs))):
            ctx.cov["tour_transitions_in_graph"] += n
            ctx.cov["tour_transitions"] += c
            hists.append(h)
    return hists

def finish(ctx, t0, violations, level="model_checking"):
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": ctx.notes[:20]}
    d = EVID
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ctx.prop + ".json"), "w"), indent=1)
    shutil.rmtree(ctx.work, ignore_errors=True)
