"""Interleaved pairs of histories (property X01): two histories, each with its own objects, run in one process on one copy of the
library; one call of the second runs to completion at a chosen memory access inside a call of the first (harness/nest.c).
Each of the two recorded histories must by itself be a behaviour of the specification, as it is when it runs alone."""
import json, os, random, shutil, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import build, engine, gen_acc, gen_buf, gen_num, gen_view, run

VARIANT = "yield"
MODULE = {"b": "TraceBuf", "v": "TraceView", "n": "TraceNum", "a": "TraceAcc"}

class Base:
    """one call of each of two histories: pre, call, post"""
    def __init__(self, fa, a, i, fb, b, j):
        self.f = (fa, fb)
        self.pre = (a[:i], b[:j]); self.call = (a[i], b[j]); self.post = (a[i + 1:i + 3], b[j + 1:j + 3])
    def lines(self, side):
        return self.pre[side] + [self.call[side]] + self.post[side] + ["end"]
    def script(self, uid, k):
        out = ["H %d %s" % (uid, self.f[0]), "@- H %d %s" % (uid, self.f[1])]
        out += ["@- " + x for x in self.pre[1]] + self.pre[0]
        out += ["@%d %s" % (k, self.call[1]), self.call[0]]
        for i in range(2):
            out += self.post[0][i:i + 1] + ["@- " + x for x in self.post[1][i:i + 1]]
        return out + ["@- end", "end"]
    def solo(self, uid, side):
        return ["H %d %s" % (uid, self.f[side])] + self.lines(side)

def hists_of(path):
    got = []
    for line in open(path, errors="replace"):
        if line.startswith("H "):
            got.append([])
        elif line.endswith("}\n") and got:
            try:
                got[-1].append(json.loads(line))
            except ValueError:
                break
    return got

def drive(exe, scripts, work, fill):
    """scripts: list of line lists, one H each -> per script (events A, events B, yield counts or None)"""
    res, todo = [], list(scripts)
    while todo:
        d = tempfile.mkdtemp(dir=work)
        sp, o1, o2, cn = (os.path.join(d, x) for x in ("s", "o1", "o2", "c"))
        open(sp, "w").write("\n".join(l for s in todo for l in s) + "\n")
        p = subprocess.run([exe, sp, o1, str(fill), o2, cn], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=run.NOUBSAN)
        a, b = hists_of(o1), hists_of(o2)
        counts = [int(x) for x in open(cn).read().split()] if p.returncode == 0 else None
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode == 77:
            raise run.MachineryError("script error: " + p.stderr.decode(errors="replace")[-500:])
        n = len(a)
        if not n:
            raise run.MachineryError("driver failed before the first history: rc %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))
        b += [[] for _ in range(n - len(b))]
        pos = 0
        for i in range(n):
            c = None
            if counts is not None:
                m = sum(1 for l in todo[i] if not l.startswith("@"))
                c = counts[pos:pos + m]; pos += m
            res.append((a[i], b[i], c))
        if p.returncode == 0:
            if n != len(todo):
                raise run.MachineryError("driver lost histories")
            break
        own = [l for l in todo[n - 1] if not l.startswith("@")][1:]
        toks = own[min(len(a[-1]), len(own) - 1)].split()
        res[-1][0].append(run.abnormal(toks, p))
        todo = todo[n:]
        if sum(1 for x, _, _ in res if x and "x_" in x[-1]) > 30:
            res += [None] * len(todo)
            break
    return res

def par(pool, exe, scripts, work, fill):
    n = max(1, min(engine.CPU, len(scripts) // 50))
    size = (len(scripts) + n - 1) // n
    fs = [pool.submit(drive, exe, scripts[i * size:(i + 1) * size], work, fill) for i in range(n) if scripts[i * size:(i + 1) * size]]
    return [x for f in fs for x in f.result()]

# ------------------------------------------------------------------------------------------------ base pairs
def hx(b): return bytes(b).hex() if len(b) else "-"

def crypt_hist(r):
    g = gen_acc.Gen(r, {"w": {}})
    k, v = r.choice(g.keys), r.choice(g.ivs)
    n = r.choice([0, 1, 5, 15, 16, 17, 20, 31])
    kv = "%s %s" % (hx(k), hx(v))
    new = "fixed 1 %d 0 0" % r.choice([48, 60]) if r.random() < 0.5 else "create 1 %d %d 0" % (r.choice([0, 48]), r.choice([1, 2, 4]))
    return [new, "assign 1 L " + hx(g.b.data(n)), "enc 1 " + kv, "dec 1 " + kv]

def op(line): return line.split()[0]

NOTCALLS = {"mem", "memz", "raw", "copy", "inv", "seteol", "src", "skip", "vset", "vinv", "vbuf", "poke", "freecs", "end"}

def key(fam, line):
    t = line.split()
    if fam == "v" and t[0] in ("trim", "find", "match", "starts", "contains"): return t[0] + t[1]
    if fam == "n": return t[0] + t[1]
    return t[0]

def bases(seed, spec):
    """spec: list of (family a, family b, generator of histories, how many, prob of the same operation)"""
    r = random.Random(seed)
    out = []
    for fa, fb, ga, gb, n, same, *only in spec:
        skip = lambda l: op(l) in NOTCALLS or only and op(l) not in only[0]
        A, B = ga(r), gb(r)
        idx = {}
        for h in B:
            for j, l in enumerate(h):
                if not skip(l):
                    idx.setdefault(key(fb, l), []).append((h, j))
        ai = {}
        for h in A:
            for i, l in enumerate(h):
                if not skip(l):
                    ai.setdefault(key(fa, l), []).append((h, i))
        ks = sorted(ai)
        kb = sorted(idx)
        for x in range(n):
            ka = ks[x % len(ks)]                   # every operation in turn
            h, i = r.choice(ai[ka])
            kk = ka if fa == fb and ka in idx and r.random() < same else r.choice(kb)
            g, j = r.choice(idx[kk])
            out.append(Base(fa, h, i, fb, g, j))
    return out

def decide(ctx, seed):
    m = 8 if ctx.thorough else 1
    cap = 2500 if ctx.thorough else 150
    lines = lambda hs: [h[2] for h in hs]
    P = lambda **kw: {"p": dict({"nslot": 2, "null": 0.02, "big": 0.0, "long": 0.08, "len": (3, 7)}, **kw)}
    B = lambda r: lines(gen_buf.histories(r.randrange(10**9), 400 * m, P()))
    BW = lambda r: lines(gen_buf.histories(r.randrange(10**9), 20 * m, P(wide=1)))
    V = lambda r: [h for h in lines(gen_view.histories(r.randrange(10**9), 400 * m, {"len": (5, 10)}))]
    N = lambda r: lines(gen_num.histories(r.randrange(10**9), 500 * m, {"bad": 0.25}))
    A = lambda r: lines(gen_acc.histories(r.randrange(10**9), 200 * m, {"w": {"io": 4, "pack": 3, "crypt": 0, "buf": 1, "view": 2}}))
    C = lambda r: [crypt_hist(r) for _ in range(60 * m)]
    spec = [("b", "b", B, B, 260 * m, 0.6), ("b", "b", BW, B, 12 * m, 0.6), ("v", "v", V, V, 260 * m, 0.6), ("n", "n", N, N, 300 * m, 0.6), ("a", "a", A, A, 100 * m, 0.6),
            ("b", "v", B, V, 30 * m, 0), ("v", "b", V, B, 30 * m, 0), ("n", "b", N, B, 30 * m, 0), ("b", "n", B, N, 30 * m, 0), ("a", "b", A, B, 30 * m, 0),
            ("a", "a", C, C, 40 * m, 0.7, {"enc", "dec"}), ("a", "a", C, A, 10 * m, 0), ("b", "a", B, C, 15 * m, 0)]
    bs = bases(seed, spec)
    r = random.Random(seed + 1)
    exe = build.build(VARIANT)
    ctx.cov["variants"] = [VARIANT]
    fill = 165
    with ThreadPoolExecutor(engine.CPU) as pool:
        solo = par(pool, exe, [b.solo(i, s) for i, b in enumerate(bs) for s in (0, 1)], ctx.work, fill)
        seen, todo = {}, []            # (module, events) -> index
        def add(fam, evs):
            k = (fam, json.dumps(evs))
            h = hashlib.sha256(repr(k).encode()).hexdigest()
            if h not in seen:
                seen[h] = len(todo); todo.append((fam, evs))
            return seen[h]
        sid = []
        for i, b in enumerate(bs):
            x = []
            for s in (0, 1):
                q = solo[2 * i + s]
                x.append(None if q is None or (q[0] and "x_" in q[0][-1]) else add(b.f[s], q[0]))
            sid.append(x)
        units, scripts = [], []
        for i, b in enumerate(bs):
            c = solo[2 * i][2] if solo[2 * i] else None
            if None in sid[i] or c is None:
                continue
            n = c[1 + len(b.pre[0])]
            ks = range(1, n + 2) if n <= cap else sorted(set([1, n, n + 1] + [r.randint(1, n) for _ in range(cap)]))
            for k in ks:
                units.append((i, k)); scripts.append(b.script(len(units), k))
        res = par(pool, exe, scripts, ctx.work, fill)
    nsolo = len(todo)
    ran, uid = 0, []
    for (i, k), q in zip(units, res):
        if q is None:
            uid.append(None); continue
        ran += 1
        uid.append(tuple(add(bs[i].f[s], q[s]) for s in (0, 1)))
    ctx.cov["traces_validated_against_impl"] += 2 * ran
    ctx.cov["interleavings_run"] = ran
    ctx.cov["base_pairs"] = len(bs)
    ctx.cov["distinct_recorded_histories"] = len(todo)
    bad = set()
    first = validate(ctx, [(n, f, e) for n, (f, e) in enumerate(todo)])
    for n, ei, tags in first:
        bad.add(n)
    sbad = set(i for i in range(len(bs)) if any(x is None or x in bad for x in sid[i]))
    if sbad:
        ctx.notes.append("%d pairs left out: one of the two histories does not conform even alone (other properties own that)" % len(sbad))
    tagof = {n: (ei, tags) for n, ei, tags in first}
    if bs:
        ctx.cov["samples"].append({"variant": VARIANT, "script": bs[0].script(0, 7)})
    out = []
    for (i, k), u in zip(units, uid):
        if u is None or i in sbad:
            continue
        for s in (0, 1):
            if u[s] in bad:
                out.append((bs[i], k, s) + tagof[u[s]])
    return report(ctx, out, exe, fill)

def validate(ctx, items):
    """items: (id, family, events) -> [(id, event index, tags)] of everything which does not conform"""
    batches = []
    for fam in "bvna":
        cur, n = [], 0
        for x in items:
            if x[1] == fam:
                cur.append(x); n += len(x[2])
                if n > 50000:
                    batches.append((fam, cur)); cur, n = [], 0
        if cur:
            batches.append((fam, cur))
    out = []
    def val(bt):
        fam, xs = bt
        d = tempfile.mkdtemp(dir=ctx.work)
        r = run.validate(MODULE[fam], engine.trace_cfg(MODULE[fam], VARIANT, "ANY"), [(str(x[0]), x[2]) for x in xs], d, workers=4, heap="5g")
        shutil.rmtree(d, ignore_errors=True)
        return xs, r
    with ThreadPoolExecutor(4) as pool:
        for xs, r in pool.map(val, batches):
            ctx.cov["events_validated"] += sum(len(x[2]) for x in xs)
            ctx.cov["trace_states"] += r["distinct"]
            for hi, ei, tags in r["owned"] + r["other"]:
                out.append((xs[hi][0], ei, tags))
    return out

def once(ctx, exe, base, k, fill):
    """-> (side, event index, tags, events) if this interleaving does not conform and both histories alone do"""
    q = drive(exe, [base.solo(0, 0), base.solo(1, 1)], ctx.work, fill)
    t = drive(exe, [base.script(0, k)], ctx.work, fill)[0]
    if any(x is None or (x[0] and "x_" in x[0][-1]) for x in q):
        return None
    v = validate(ctx, [(0, base.f[0], q[0][0]), (1, base.f[1], q[1][0]), (2, base.f[0], t[0]), (3, base.f[1], t[1])])
    if any(n < 2 for n, _, _ in v) or not v:
        return None
    n, ei, tags = sorted(v)[0]
    return n - 2, ei, tags, t[n - 2]

def report(ctx, mis, exe, fill):
    kn = dict(engine.known(ctx.prop))
    for base, k, s, ei, tags in mis[:12]:
        try:
            c = once(ctx, exe, base, k, fill)
        except run.MachineryError as e:
            ctx.notes.append("confirmation failed: " + str(e)[:300]); continue
        if c is None:
            ctx.notes.append("a mismatch did not reproduce and is not reported"); continue
        side, ei, tags, evs = c
        sc = base.script(0, k)
        fp = hashlib.sha256(json.dumps([sc, sorted(t[1] for t in tags)]).encode()).hexdigest()[:16]
        if fp in kn:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, kn[fp])); continue
        d = os.path.join(engine.EVID, "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (ctx.prop, fp))
        json.dump({"property": ctx.prop, "variant": VARIANT, "fill": fill, "module": "pair", "families": base.f, "pre": base.pre, "call": base.call, "post": base.post,
                   "at_access": k, "script": sc, "differs_in_history": side, "failing_call": ei, "differs_in": [list(t) for t in tags],
                   "events": evs[max(0, ei - 1):ei + 1], "fingerprint": fp}, open(path, "w"), indent=1)
        return path
    return None

def replay(r, ctx):
    b = Base("b", ["x"], 0, "b", ["x"], 0)
    b.f, b.pre, b.call, b.post = r["families"], r["pre"], r["call"], r["post"]
    c = once(ctx, build.build(VARIANT), b, r["at_access"], r["fill"])
    if c is None:
        print("conforms"); return 0
    print("history %d, call %d differs in %s" % (c[0], c[1], sorted(set(t[1] for t in c[2]))))
    return 1
