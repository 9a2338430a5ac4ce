"""Turns the transition graph TLC explored (MC_StrBuf with Emit) into call histories which take every transition
at least once: the model-based test generator.  The histories are run on the real code and the recorded traces are
validated against the specification again, so nothing here has to be trusted."""
import json, random
from collections import deque

def parse(out):
    edges = []
    for line in out.splitlines():
        if line.startswith('"[\\"T\\"'):
            t = json.loads(json.loads(line))
            edges.append((json.dumps(t[1], sort_keys=True), t[2], json.dumps(t[3], sort_keys=True)))
    return edges

def hx(b):
    return bytes(b).hex() if b else "-"

def arg(a, r, viewonly=False):
    t = a["t"]
    if t == "lit":
        return ("L " if viewonly or r.random() < 0.7 or 0 in a["b"] else "C ") + hx(a["b"])
    if t == "self":
        return "S %d %d" % (a["o"], a["n"])
    if t == "slot":
        return "O %d %d %d" % (a["s"], a["o"], a["n"])
    return "N"

def line(e, r):
    op, s, a = e["op"], e["s"], e["a"]
    v = r.randint(0, 1)
    if op == "create":
        return "create %d %d %d %d" % (s, e["i"], e["aa"], r.randint(0, 2))
    if op == "init":
        return "init %d %d %d %s" % (s, e["aa"], v, arg(a[0], r, True))
    if op == "fixed":
        if e["q"] == 1:
            return "fixed %d %d 0 0" % (s, e["i"])
        return "fixed %d %d %s" % (s, e["i"], r.choice(["1 0", "3 0", "4 0", "0 1"]))
    if op in ("destroy", "view", "shrink", "tocstr"):
        return "%s %d" % (op, s)
    if op in ("grow", "char"):
        return "%s %d %d" % (op, s, e["i"])
    if op == "freecs":
        return "freecs %d" % (e["i"] - 1)
    if op in ("append", "prepend", "strip"):
        return "%s %d %d %s" % (op, s, v, arg(a[0], r))
    if op == "assign":
        return "assign %d %s" % (s, arg(a[0], r, True))
    if op == "insert":
        return "insert %d %d %d %s" % (s, v, e["i"], arg(a[0], r))
    if op in ("before", "after"):
        d = e["d"]
        loc = "S %d %d" % (d["o"], d["n"]) if d["t"] == "self" else "F 61" if d["t"] == "foreign" else "N"
        return "%s %d %d %s %s" % (op, s, v, loc, arg(a[0], r))
    if op in ("cat", "vcat"):
        return "%s %d %d %s" % (op, s, len(a), " ".join(arg(x, r, True) for x in a))
    if op in ("printf", "aprintf", "prnf", "aprnf"):
        if e["i"] == 1:
            return "%s %d %d 7 0 - - 0" % (op, s, v)
        return "%s %d %d %d 0 %s - 0" % (op, s, v, r.choice([0, 2]) if e["x"] else 2, hx(e["x"]))
    if op == "using":
        return "using %d a %d -1" % (s, e["i"])
    raise AssertionError(op)

def empty(a):
    return all(x["k"] == "null" for x in a["buf"]) and not a["cs"]

def tours(edges, seed, maxlen=90, tag="t", budget=None, line=line, fam="b", start_if=empty):
    """-> (histories, number of transitions covered)"""
    r = random.Random(seed)
    out, start = {}, None
    for i, (a, e, b) in enumerate(edges):
        out.setdefault(a, []).append((i, e, b))
        if start is None and start_if(json.loads(a)):
            start = a
    left = {a: r.sample(v, len(v)) for a, v in out.items()}
    n = sum(len(v) for v in left.values())
    hists, total = [], 0

    def nearest(src):
        seen, q = {src: None}, deque([src])
        while q:
            u = q.popleft()
            if left.get(u):
                path = []
                while seen[u] is not None:
                    p, ed = seen[u]
                    path.append(ed)
                    u = p
                return path[::-1]
            for ed in out.get(u, ()):
                if ed[2] not in seen:
                    seen[ed[2]] = (u, ed)
                    q.append(ed[2])
        return None

    covered = set()
    while len(covered) < n and (budget is None or total < budget):
        cur, steps = start, []
        while len(steps) < maxlen:
            if left.get(cur):
                ed = left[cur].pop()
                if ed[0] in covered:
                    continue
                path = [ed]
            else:
                path = nearest(cur)
                if path is None:
                    break
                if steps and len(steps) + len(path) > maxlen:
                    break
            for ed in path:
                covered.add(ed[0])
                x = line(ed[1], r)
                steps += x if isinstance(x, list) else [x]
                cur = ed[2]
        if not steps:
            break
        total += len(steps)
        hists.append(("%s%d" % (tag, len(hists)), fam, steps))
    return hists, len(covered), total
