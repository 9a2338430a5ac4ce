"""Texts enumerated by MC_StrNum -> histories for the conformance driver."""
import json, random
from gen_num import UNS, SIG, FIXED, FLT, WIDTH, hx, Gen

def parse(out):
    return [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[\\"N\\"')]

def tours(calls, seed, maxlen=60, tag="e", budget=None):
    r = random.Random(seed)
    if budget and len(calls) > budget:
        calls = r.sample(calls, budget)
    g = Gen(r)
    hists, cur = [], []
    for _, kind, txt, o in calls:
        cur.append("src " + hx(txt))
        if kind == "int":
            cur.append("num %s %d %d %d" % (r.choice(SIG), o, r.randint(0, 1), 0 if r.random() < 0.03 else 1))
            cur.append("src " + hx(txt))
            cur.append("num %s %d %d 1" % (r.choice(UNS), o, r.randint(0, 1)))
            if r.random() < 0.5:
                f = r.choice(FIXED + UNS + SIG)
                cur.append("val %s %d %s" % (f, o, hx(g.df(f))))
        else:
            f = r.choice(FLT)
            if r.random() < 0.3:
                cur.append("val %s %d %s" % (f, o, hx(g.df(f))))
            cur.append("num %s %d %d %d" % (f, o, r.randint(0, 1), 0 if r.random() < 0.03 else 1))
        if len(cur) >= maxlen:
            hists.append(("%s%d" % (tag, len(hists)), "n", cur)); cur = []
    if cur:
        hists.append(("%s%d" % (tag, len(hists)), "n", cur))
    return hists, len(calls), sum(len(h[2]) for h in hists)
