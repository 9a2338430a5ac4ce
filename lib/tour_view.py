"""Calls enumerated by MC_StrView / MC_Line -> histories for the conformance driver."""
import json, random

def hx(b):
    return bytes(b).hex() if b else "-"

def parse(out):
    r = []
    for line in out.splitlines():
        if line.startswith('"[\\"C\\"') or line.startswith('"[\\"S\\"'):
            r.append(json.loads(json.loads(line)))
    return r

def carg(a, r, name="C"):
    if a == [-1]:
        return r.choice(["c", "N"]) if name != "C" else "c"
    if name == "CL":
        return ("C " if 0 not in a and r.random() < 0.5 else "L ") + hx(a)
    return name + " " + hx(a)

def lines(t, r):
    if t[0] == "S":
        return ["stream %d %d %s" % (r.randint(0, 2), len(t[1]), " ".join(hx(c) for c in t[1]))]
    txt, c = t[1], t[2]
    op, a, k, i, j = c["op"], c["a"], c["k"], c["i"], c["j"]
    out = ["mem 1 " + hx(txt)]
    if op in ("first", "last"):
        return out + ["%s 1 2 %d %s" % (op, k, carg(a, r))]
    if op == "all":
        return out + ["all 1 %d %d %s" % (i, k, carg(a, r))]
    if op == "find":
        return out + ["find %d 1 2 %d %s" % (k, r.randint(0, 2), carg(a, r, "CL"))]
    if op == "contains":
        return out + ["contains %d 1 L %s" % (k, hx(a))]
    if op in ("match", "starts"):
        return out + ["%s %d 1 %d %s" % (op, k, r.randint(0, 2), carg(a, r, "CL"))]
    if op == "cmp":
        return out + ["cmp 1 " + ("N" if a == [-1] else "L " + hx(a))]
    if op == "sub":
        return out + ["sub 1 2 %d %d" % (i, j)]
    if op == "splitidx":
        return out + ["splitidx 1 2 %d" % i]
    if op == "pop":
        return out + ["pop 1"]
    if op in ("left", "right"):
        return out + ["raw 2 1 %d %d" % (i, j), "raw 3 1 %d %d" % (a[0], a[1]), "%s 3 4 R 2" % op]
    if op == "trim":
        return out + ["trim %d 1 2 %d %s" % (k, r.randint(0, 2), carg(a, r, "CL"))]
    if op == "dequote":
        return out + ["dequote 1 2"]
    if op == "tocstr":
        return out + ["tocstr 1 %d 0" % i]
    if op == "cstr":
        return ["cstr 1 " + hx(txt)]
    raise AssertionError(op)

def tours(calls, seed, maxlen=60, tag="e", budget=None):
    r = random.Random(seed)
    n = len(calls)
    if budget and n > budget:
        calls = r.sample(calls, budget)
    hists, cur = [], []
    for c in calls:
        cur += lines(c, r)
        if len(cur) >= maxlen:
            hists.append(("%s%d" % (tag, len(hists)), "v", cur)); cur = []
    if cur:
        hists.append(("%s%d" % (tag, len(hists)), "v", cur))
    return hists, len(calls), sum(len(h[2]) for h in hists)
