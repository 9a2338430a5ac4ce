"""What each property's check explores (see DESIGN.md)."""
import random
import engine, gen_acc, gen_buf, gen_huge, gen_num, gen_view, inter, run, tour, tour_acc, tour_num, tour_view
from concurrent.futures import ThreadPoolExecutor
from engine import Job, opset

def mc_buf(ops, maxint=4, nslots=1, litlen=2, allocs="2, 4"):
    return {"module": "MC_StrBuf", "kv": {"OPS": opset(ops), "MAXINT": maxint, "NSLOTS": nslots, "LITLEN": litlen, "ALLOCS": allocs}}

def mc_size(ops, maxint=5, nslots=1, litlen=2, allocs="2, 4"):
    """StrBuf refines StrSize: an emitted-free model run"""
    return ("MC_StrSize", {"OPS": opset(ops), "MAXINT": maxint, "NSLOTS": nslots, "LITLEN": litlen, "ALLOCS": allocs})
SIZES = [["append", "prepend", "assign", "strip"], ["insert", "before", "after"], ["cat"], ["printf", "aprintf", "prnf", "aprnf", "using", "char", "grow", "shrink"]]

class B:
    """buffer plan: tours (operation subsets explored exhaustively) and random profiles (variant, histories, profile, fill)"""
    def __init__(self, tours, rand, big=None):
        self.tours, self.rand, self.big = tours, rand, big

def P(p=None, w=None, only=None):
    d = {}
    if p: d["p"] = p
    if w: d["w"] = w
    if only: d["only"] = only
    return d

BASE = ["create", "init", "fixed", "static"]
ED = ["append", "prepend", "insert", "before", "after", "assign", "strip", "char", "cat", "vcat"]
FM = ["printf", "aprintf", "prnf", "aprnf"]
OWN = dict.fromkeys(["destroy", "tocstr", "freecs"], 5)
LONG = {"long": 0.4}

# handed-over strings multiply the states: smaller bounds
CSTR = mc_buf(["append", "tocstr"], maxint=3, litlen=1, allocs="2")
BUF = {
 "B01": B([["insert"], ["append", "prepend", "assign", "strip"], ["before", "after"]],
          [("asan", 700, P(), 165), ("opt", 700, P(LONG), 0), ("clang", 500, P(), 255), ("yield", 400, P(), 165)]),
 "B02": B([["append", "prepend", "assign", "strip"], FM + ["using", "char"], ["insert"]],
          [("asan", 900, P(), 165), ("asan1", 400, P(), 255), ("asan2", 400, P({"fixed": 0.6}), 1), ("msan", 500, P(LONG), 165)]),
 "B03": B([["insert"], ["before", "after"], ["append", "prepend", "assign", "strip"]],
          [("asan", 700, P({"self": 0.8, "allocs": (2, 3, 4)}, only=BASE + ED + ["shrink"]), 165),
           ("asan1", 500, P({"self": 0.8, "allocs": (2, 3, 4), "fixed": 0.1}, only=BASE + ED + ["shrink"]), 165),
           ("opt", 700, P({"self": 0.8, "fixed": 0.6}, only=BASE + ED), 255)]),
 "B04": B([["append", "prepend", "assign", "strip"], ["insert"], FM + ["using", "char", "grow", "shrink"]],
          [("asan", 800, P({"fixed": 1, "self": 0.4}), 165), ("opt", 500, P({"fixed": 1, "long": 0.1}), 255),
           ("asan2", 500, P({"fixed": 1}, only=["fixed"] + ED + FM + ["using"]), 1)]),
 "B05": B([["cat"], CSTR],
          [("asan", 800, P({"allocs": (2, 3, 4), "defalloc": 0.4}, OWN), 165),
           ("asan1", 500, P({"self": 0.6, "cs": 0}, dict(OWN, cat=12, vcat=6)), 165),
           ("userdef", 400, P({"defalloc": 0.6}, OWN), 165), ("nodef", 300, P({}, OWN), 165)]),
 "B06": B([["append", "prepend", "grow", "shrink"], ["insert"], ["cat"]],
          [("asan", 500, P({"fixed": 0.05}, {"grow": 6, "growr": 4, "shrink": 6}), 165),
           ("asan1", 350, P({"fixed": 0.05}, {"grow": 6, "growr": 4, "shrink": 6}), 165),
           ("asan5", 350, P({"fixed": 0.05}, {"grow": 4, "growr": 3, "shrink": 5}), 165),
           ("asan64", 350, P({"fixed": 0.05}, {"grow": 4, "growr": 3, "shrink": 5}), 165),
           ("asan2", 350, P({"fixed": 0.05}, {"grow": 4, "growr": 3, "shrink": 5}), 165)]),
 "B07": B([FM],
          [("asan", 800, P({"fixed": 0.4}, only=BASE + FM + ["append", "shrink", "grow"]), 165),
           ("asan1", 400, P({"fixed": 0.5}, only=BASE + FM + ["append", "shrink", "char"]), 255),
           ("opt", 600, P({"fixed": 0.4}, dict.fromkeys(FM, 10)), 0)]),
 "B08": B([["append", "prepend", "view", "grow", "shrink", "strip", "char"]],
          [("asan", 600, P({"null": 0.4}, {"view": 5, "destroy": 6, "tocstr": 4}), 165),
           ("asan1", 500, P({"null": 0.2, "allocs": (2, 3)}, {"view": 5, "destroy": 3, "shrink": 6}), 165),
           ("opt", 500, P({"null": 0.3}, {"view": 5, "destroy": 3}), 165)]),
 "B09": B([["cat", "vcat"]],
          [("asan", 700, P({"self": 0.5}, only=BASE + ["cat", "vcat", "append", "shrink"]), 165),
           ("asan1", 500, P({"self": 0.6, "fixed": 0.1}, {"cat": 30, "vcat": 15}), 165),
           ("opt", 500, P({"self": 0.3}, {"cat": 30, "vcat": 15}), 255)]),
 "B10": B([CSTR],
          [("asan", 800, P({}, dict(OWN, tocstr=12)), 165), ("asan64", 500, P({}, dict(OWN, tocstr=12)), 255),
           ("opt", 500, P(LONG, dict(OWN, tocstr=12)), 165)]),
 "B11": B([],
          [("asan", 900, P({"big": 0.5, "self": 0.2}), 165), ("opt", 600, P({"big": 0.5}), 255),
           ("asan2", 400, P({"big": 0.6}, only=BASE + ED + ["aprintf"]), 165)]),
 "B12": B([["using"], ["using", "append", "shrink"]],
          [("asan", 800, P({}, {"using": 40, "shrink": 6}), 165), ("asan2", 500, P({"fixed": 0.6}, {"using": 40, "grow": 6}), 255),
           ("opt", 500, P(LONG, {"using": 40, "grow": 6}), 165)]),
 "B13": B([["append"]],
          [("asan", 700, P({"null": 0.3, "fixed": 0.6}, dict.fromkeys(BASE, 10), only=BASE + ["destroy", "append", "printf"]), 165),
           ("nodef", 500, P({"null": 0.3, "defalloc": 0.6}, dict.fromkeys(BASE, 10), only=BASE + ["destroy", "append"]), 165),
           ("userdef", 500, P({"null": 0.3, "defalloc": 0.6}, dict.fromkeys(BASE, 10), only=BASE + ["destroy", "append"]), 255),
           ("opt", 500, P({"null": 0.3, "fixed": 0.5}, dict.fromkeys(BASE, 10)), 0)]),
 "B14": B([["insert"], ["before", "after"]],
          [("asan", 800, P({}, only=BASE + ["insert", "before", "after", "append", "assign", "shrink"]), 165),
           ("opt", 600, P({"long": 0.2}, only=BASE + ["insert", "before", "after", "append", "assign"]), 255),
           ("asan1", 400, P({"fixed": 0.5}, only=BASE + ["insert", "before", "after", "append"]), 1)]),
}

# contents, capacities, operands and free space of 255 .. 66000 bytes: which operations follow the creation, and profile changes
WSIZE = ["grow", "shrink", "append"]
WIDE = {
"B01": (None, {}), "B02": (["append", "prepend", "insert", "assign", "strip", "char", "printf", "aprnf", "using", "cat", "view"], {}),
"B03": (None, {"allocs": (2, 3, 4), "fixed": 0.15, "wn": 3}), "B04": (["append", "prepend", "insert", "assign", "cat", "char", "using", "aprintf", "prnf", "grow"], {"fixed": 1}),
"B05": (["tocstr", "destroy", "append", "cat", "shrink", "insert", "grow"], {"fixed": 0.1}), "B06": (WSIZE + ["insert", "cat"], {"fixed": 0.1, "wshrink": 0.4}),
"B07": (FM, {"wshrink": 0.4}), "B08": (["view", "append", "shrink", "strip", "destroy", "char"], {}), "B09": (["cat"], {}),
"B10": (["tocstr", "append", "shrink", "strip", "prepend"], {"fixed": 0.15}), "B11": (["append", "prepend", "insert", "cat", "aprintf"], {}),
"B12": (["using"], {"wshrink": 0.3}), "B13": (["append", "view", "char"], {"wshrink": 0.1}), "B14": (["insert", "before", "after"], {}),
}

# ------------------------------------------------------------------------------------------------ views
def mc_view(group, alphabet, maxlen, arglen=0):
    return {"module": "MC_StrView", "kv": {"GROUP": group, "ALPHABET": alphabet, "MAXLEN": maxlen, "ARGLEN": arglen},
            "parse": tour_view.parse, "tours": tour_view.tours}
def mc_line(n):
    return {"module": "MC_Line", "kv": {"MAXLEN": n}, "parse": tour_view.parse, "tours": tour_view.tours}

def W(*ops, **kw):
    return dict({"only": set(ops)}, **kw)

VIEWS = {
 # quick models, thorough models, random (variant, n, profile, fill)
 "V01": ([mc_view("index", "97", 4), mc_view("split", "97, 44, 34", 4), mc_view("find", "97, 65", 4, 3), mc_view("trim", "97, 98", 4),
          mc_view("quote", "34, 39, 97", 5), mc_view("cstr", "0, 97", 4), mc_line(4)],
         [mc_view("index", "97", 7), mc_view("split", "97, 44, 34", 6), mc_view("find", "97, 65", 5, 4), mc_line(7)],
         [("asan", 2500, {}, 165), ("opt", 1500, {"long": 0.2}, 165), ("msan", 1000, {}, 165), ("yield", 1200, {}, 165)]),
 "V02": ([mc_view("split", "97, 44, 34", 5)], [mc_view("split", "97, 44, 34", 7)],
         [("asan", 1500, W("first", "last", "all"), 165), ("opt", 1500, W("first", "last", "all", long=0.2), 165)]),
 "V03": ([mc_line(6)], [mc_line(8)],
         [("asan", 1200, W("line", "stream", "seteol"), 165), ("opt", 1200, W("line", "stream", "seteol", w={"stream": 6}, long=0.1), 165)]),
 "V04": ([mc_view("find", "97, 98, 65", 4, 3)], [mc_view("find", "97, 98, 65", 6, 3), mc_view("find", "97, 98", 8, 5)],
         [("asan", 1500, W("find", "contains"), 165), ("opt", 1500, W("find", "contains", long=0.2), 165), ("clang", 1000, W("find", "contains"), 165)]),
 "V05": ([mc_view("cmp", "65, 97, 200", 3, 3)], [mc_view("cmp", "65, 97, 200, 64", 4, 4)],
         [("asan", 1500, W("match", "starts", "cmp"), 165), ("opt", 1500, W("match", "starts", "cmp", long=0.2), 165), ("clang", 1000, W("match", "starts", "cmp"), 165)]),
 "V06": ([mc_view("index", "97", 5)], [mc_view("index", "97", 9)],
         [("asan", 1500, W("sub", "splitidx", "pop", "left", "right"), 165), ("opt", 1500, W("sub", "splitidx", "pop", "left", "right", long=0.2), 165)]),
 "V07": ([mc_view("trim", "97, 98, 99", 5), mc_view("quote", "34, 39, 97", 7)], [mc_view("trim", "97, 98, 99", 7), mc_view("quote", "34, 39, 97", 9)],
         [("asan", 1500, W("trim", "dequote"), 165), ("opt", 1500, W("trim", "dequote", long=0.2), 165)]),
 "V08": ([mc_view("cstr", "0, 97", 6)], [mc_view("cstr", "0, 97, 255", 8)],
         [("asan", 1500, W("tocstr", "swap", "valid", "cstrnull", w={"cstr": 5, "sl": 5, "swap": 4, "valid": 3, "cstrnull": 2}), 165),
          ("opt", 1500, W("tocstr", "swap", "valid", "cstrnull", w={"cstr": 5}, long=0.2), 165)]),
}


# ------------------------------------------------------------------------------------------------ numbers
def mc_num(kind, tokens, maxtok, opts):
    return {"module": "MC_StrNum", "kv": {"KIND": kind, "TOKENS": opset(tokens.split()), "MAXTOK": maxtok, "OPTS": opts},
            "parse": tour_num.parse, "tours": tour_num.tours}
INTTOK = "sp - + 0 1 9 b x F 0x 0B"
ALLOPT = "0,1,2,4,5,6,8,16,24,28"
FLTTOK = "sp - + 0 1 . e E inf INFinity nAn x big"
INT3, INT4 = mc_num("int", INTTOK, 3, ALLOPT), mc_num("int", INTTOK, 4, ALLOPT)
RANGE = mc_num("int", "- 0 1 25 8 9 F 0x", 4, "0,2,8")
FLT3, FLT4 = mc_num("float", FLTTOK, 3, "0,8,16,32"), mc_num("float", FLTTOK, 4, "0,8,16,32")
FTAB = ("MC_FloatTab", {"DEEP": "FALSE"})
def digits(a, b, c, n):
    return ("MC_Digits", {"MA": a, "MB": b, "MC": c, "MAXLEN": n})
INTS = gen_num.UNS + gen_num.SIG
FIX = INTS + gen_num.FIXED
def F(fns, **kw):
    return dict(kw, fns=fns)

NUMS = {
 # emitting models (quick, thorough), plain models (quick, thorough), random (variant, n, profile, fill)
 "N01": ([RANGE], [INT4], [digits(150, 255, 511, 4)], [digits(255, 511, 1023, 5), digits(127, 127, 2047, 5)],
         [("asan", 6000, F(INTS, ops=("num",), bad=0.05), 165), ("opt", 4000, F(INTS, ops=("num",), bad=0.05, long=0.05), 165),
          ("nofloat", 2000, F(INTS, ops=("num",), bad=0.05), 165)]),
 "N02": ([INT3, FLT3], [INT4, FLT4], [], [],
         [("asan", 5000, F(INTS + gen_num.FLT, ops=("num",), bad=0.4), 165), ("opt", 3000, F(INTS + gen_num.FLT, ops=("num",), bad=0.4), 165),
          ("yield", 2000, F(INTS + gen_num.FLT, ops=("num",), bad=0.4), 165)]),
 "N03": ([INT3], [INT4], [], [],
         [("asan", 5000, F(INTS, ops=("num",), bad=0.35), 165), ("clang", 3000, F(INTS, ops=("num",), bad=0.35), 165)]),
 "N04": ([FLT3], [FLT4], [], [],
         [("asan", 5000, F(gen_num.FLT, ops=("num",), bad=0.4), 165), ("clang", 3000, F(gen_num.FLT, ops=("num",), bad=0.4), 165)]),
 "N05": ([mc_num("int", INTTOK, 2, ALLOPT), mc_num("float", FLTTOK, 2, "0,8,16,32")], [INT3, FLT3], [], [],
         [("asan", 5000, F(FIX + gen_num.FLT, ops=("val",), bad=0.2), 165), ("opt", 3000, F(FIX + gen_num.FLT, ops=("val",)), 165),
          ("nofloat", 1500, F(FIX, ops=("val",)), 165)]),
 "N06": ([], [mc_num("float", "0 1 25 9 . e -", 5, "0")], [FTAB], [("MC_FloatTab", {"DEEP": "TRUE"})],
         [("asan", 7000, F(gen_num.FLT, ops=("num",), bad=0.02), 165), ("opt", 5000, F(gen_num.FLT, ops=("num",), bad=0.02, long=0.05), 165),
          ("clang", 4000, F(gen_num.FLT, ops=("num",), bad=0.02), 165)]),
}

# ------------------------------------------------------------------------------------------------ accessories
def mc_acc(group, maxint, caps, pack=5, crypt=2, budget=None):
    return {"module": "MC_StrAcc", "kv": {"GROUP": group, "MAXINT": maxint, "CAPS": caps, "PACKMAX": pack, "CRYPTMAX": crypt},
            "parse": tour_acc.parse, "tours": tour_acc.crypt_tours if group == "crypt" else tour_acc.io_tours, "budget": budget, "maxlen": 60}
AES = ("MC_Aes", {"STEPS": 256})
def K(**w):
    return {"w": dict({"io": 0, "pack": 0, "crypt": 0, "buf": 0, "view": 0}, **w)}

ACCS = {
 # emitting models (quick, thorough), plain models (quick, thorough), random (variant, n, profile, fill)
 "A01": ([mc_acc("io", 3, "0, 1, 3")], [mc_acc("io", 4, "0, 1, 3, 4")], [], [],
         [("asan", 3000, K(io=4, buf=2, view=2), 165), ("opt", 2000, K(io=4, buf=2, view=2), 255), ("msan", 1500, K(io=4, buf=1, view=2), 165),
          ("opt", 40, {"wide": 1, "wide64": 0.2}, 165), ("asan5", 30, {"wide": 1}, 255)]),
 "A02": ([mc_acc("pack", 5, "0, 3", 4)], [mc_acc("pack", 8, "0, 3", 5, budget=400000)], [], [],
         [("asan", 3000, K(pack=5, buf=1, view=1), 165), ("opt", 2500, K(pack=5, buf=1), 165), ("clang", 2000, K(pack=5, buf=1), 255), ("opt", 40, {"wide": "pack", "wide64": 0.15}, 165)]),
 "A03": ([mc_acc("crypt", 4, "0, 2, 3, 4", 5, 1, 5000)], [mc_acc("crypt", 6, "0, 2, 3, 4, 6", 5, 3, 60000)], [AES], [("MC_Aes", {"STEPS": 1500})],
         [("asan", 600, K(crypt=5, buf=1), 165), ("opt", 500, K(crypt=5, buf=1), 255), ("clang", 300, K(crypt=5), 165), ("asan1", 300, K(crypt=5, buf=1), 1),
          ("opt", 25, {"wide": "crypt", "wide64": 0.1}, 165)]),
 "A04": ([mc_acc("crypt", 4, "0, 2, 3, 4", 5, 1, 5000)], [mc_acc("crypt", 6, "0, 2, 3, 4, 6", 5, 3, 60000)], [], [],
         [("asan", 800, K(crypt=5, buf=1), 165), ("opt", 600, K(crypt=5, buf=1), 255), ("msan", 400, K(crypt=5, buf=1), 165)]),
}

def decide_acc(ctx):
    quick, deep, plain, plaindeep, rand = ACCS[ctx.prop]
    jobs = []
    for m, kv in plain + (plaindeep if ctx.thorough else []):
        engine.model(ctx, m, kv, workers=8)
    specs = quick + deep if ctx.thorough else quick
    for s, h in zip(specs, engine.run_tours(ctx, specs)):
        jobs.append(Job("asan2", h, module="TraceAcc"))
    if ctx.prop in ("A03", "A04"):
        for i, v in enumerate(["opt", "asan"] + (["clang", "msan"] if ctx.thorough else [])):
            jobs.append(Job(v, gen_acc.far(seed_of(ctx, 60 + i)), 165, "TraceAcc"))
    if ctx.prop == "A03":
        for i, v in enumerate(["opt", "asan"]):
            jobs.append(Job(v, gen_huge.histories(seed_of(ctx, 50 + i), 40, {"enc": 1}, "h%d_" % i), 165, "TraceHuge"))
    for i, (variant, n, prof, fill) in enumerate(rand):
        jobs.append(Job(variant, gen_acc.histories(seed_of(ctx, i), n * (12 if ctx.thorough else 1), prof, "r%d_" % i), fill, "TraceAcc"))
    return jobs

def decide_num(ctx):
    quick, deep, plain, plaindeep, rand = NUMS[ctx.prop]
    jobs = []
    for m, kv in plain + (plaindeep if ctx.thorough else []):
        engine.model(ctx, m, kv, workers=8)
    specs = quick + deep if ctx.thorough else quick
    for s, h in zip(specs, engine.run_tours(ctx, specs)):
        jobs.append(Job("asan", h, module="TraceNum"))
    if ctx.prop in ("N01", "N05"):
        jobs.append(Job("asan", gen_num.limits(("num",) if ctx.prop == "N01" else ("val",), INTS if ctx.prop == "N01" else FIX, seed_of(ctx, 40)), module="TraceNum"))
        jobs.append(Job("opt", gen_num.sweep(("num",) if ctx.prop == "N01" else ("val",), INTS if ctx.prop == "N01" else FIX, seed_of(ctx, 43), ctx.thorough), module="TraceNum"))
    jobs.append(Job("opt", gen_num.far(rand[0][2]["ops"], rand[0][2]["fns"], seed_of(ctx, 42)), module="TraceNum"))
    jobs.append(Job("opt", gen_num.bytegrid(rand[0][2]["ops"], rand[0][2]["fns"], seed_of(ctx, 41)), module="TraceNum"))
    for i, (variant, n, prof, fill) in enumerate(rand):
        jobs.append(Job(variant, gen_num.histories(seed_of(ctx, i), n * (20 if ctx.thorough else 1), prof, "r%d_" % i), fill, "TraceNum"))
    return jobs

def seed_of(ctx, i):
    return ctx.seed * 7919 + i * 101 + sum(map(ord, ctx.prop))

# what gen_huge.mid calls more often for a property: ranges of its choice
MIDS = dict({"B01": [(0.2, 0.56)], "B03": [(0.50, 0.56), (0.74, 0.78)], "B06": [(0.80, 0.94)], "B07": [(0.63, 0.74)], "B09": [(0.74, 0.80)], "B12": [(0, 0.2)], "B14": [(0.33, 0.5)]},
            **dict.fromkeys(("B02", "B04", "B05", "B08", "B13")))
def decide_buf(ctx):
    pl = BUF[ctx.prop]
    jobs = []
    mult = 12 if ctx.thorough else 1
    specs = [t if isinstance(t, dict) else mc_buf(t) for t in pl.tours]
    for s, h in zip(specs, engine.run_tours(ctx, specs)):
        jobs.append(Job("asan2", h))
    for i, (variant, n, prof, fill) in enumerate(pl.rand):
        jobs.append(Job(variant, gen_buf.histories(seed_of(ctx, i), n * mult, prof, "r%d_" % i), fill))
    wops, p = WIDE[ctx.prop]
    for i, v in enumerate(["opt5", "asan"]):
        jobs.append(Job(v, gen_buf.histories(seed_of(ctx, 80 + i), p.get("wn", 1) * (50, 25)[i] * (8 if ctx.thorough else 1),
                                             P(dict(p, wide=1, wide64=0.08, wops=wops)), "w%d_" % i), 165))
    if ctx.prop == "B09":
        for i, v in enumerate(["asan", "clang"]):
            jobs.append(Job(v, gen_buf.catgrid(seed_of(ctx, 60 + i)), 165))
    if ctx.prop == "B11":
        with ThreadPoolExecutor(2) as pool:
            list(pool.map(lambda m: engine.model(ctx, m[0], m[1], workers=4), [mc_size(ops) for ops in SIZES] + ([mc_size(ops, 6) for ops in SIZES] if ctx.thorough else [])))
        for i, v in enumerate(["opt", "asan", "opt5"] + (["clang"] if ctx.thorough else [])):
            jobs.append(Job(v, gen_huge.histories(seed_of(ctx, 50 + i), 4000 * (6 if ctx.thorough else 1), None, "h%d_" % i), 165, "TraceHuge"))
    if ctx.prop in MIDS:
        for i, v in enumerate(["opt", "asan"]):
            jobs.append(Job(v, gen_huge.histories(seed_of(ctx, 52 + i), (600, 200)[i] * mult, {"mid": 1, "fav": MIDS[ctx.prop]}, "m%d_" % i), 165, "TraceHuge"))
    if ctx.prop in ("B06", "B07", "B13"):
        jobs.append(Job("opt", gen_huge.histories(seed_of(ctx, 50), 1500 * mult, None, "h_"), 165, "TraceHuge"))
    return jobs

ALLOCOPS = ["create", "init", "append", "insert", "assign", "cat", "char", "using", "aprintf", "prnf", "grow", "growr", "shrink", "tocstr"]
def armed(seed, hists, most):
    """the same histories with one request for memory refused: which, and from where on"""
    r = random.Random(seed)
    out = []
    for hid, fam, lines in hists:
        at = r.randint(0, max(0, len(lines) - 1)) if r.random() < 0.6 else 0
        out.append((hid, fam, lines[:at] + ["armf %d" % r.randint(1, most)] + lines[at:]))
    return out

def decide_fault(ctx):
    mult = 8 if ctx.thorough else 1
    def m(ops, maxint=2):
        return ("MC_StrFault", {"OPS": opset(ops), "MAXINT": maxint, "LITLEN": 1, "ALLOCS": "0, 2"})
    ms = [m(["append", "strip", "insert"]), m(["cat", "grow", "shrink"]), m(["grow", "tocstr"]), m(["aprintf", "prnf", "using", "char", "assign"])]
    if ctx.thorough:
        ms += [m(["append", "grow", "shrink"], 4), m(["cat", "before", "after"], 3)]
    with ThreadPoolExecutor(2) as pool:
        list(pool.map(lambda x: engine.model(ctx, x[0], x[1], workers=4), ms))
    jobs = []
    for i, (v, n) in enumerate([("asan", 300), ("asan1", 300), ("opt5", 400), ("clang", 200)]):
        h = gen_buf.histories(seed_of(ctx, i), n * mult, P({"defalloc": 0.7, "fixed": 0.15, "nslot": 2, "len": (2, 8)}, dict.fromkeys(ALLOCOPS, 6)), "r%d_" % i)
        jobs.append(Job(v, armed(seed_of(ctx, 20 + i), h, 3 + 2 * (i % 2)), 165))
        h = gen_buf.histories(seed_of(ctx, 10 + i), n * mult // 4, P({"defalloc": 1, "fixed": 0, "long": 0.5, "self": 0.4, "nslot": 1, "len": (3, 9)}), "q%d_" % i)
        jobs.append(Job(v, armed(seed_of(ctx, 30 + i), h, 6), 165))
    for i, v in enumerate(["opt5", "asan"]):
        h = gen_buf.histories(seed_of(ctx, 80 + i), 40 * mult, P({"defalloc": 0.8, "fixed": 0.1, "wide": 1, "wide64": 0.2, "wops": ["grow", "append", "insert", "assign", "cat", "tocstr"]}), "w%d_" % i)
        jobs.append(Job(v, armed(seed_of(ctx, 82 + i), h, 3), 165))
    h = gen_acc.histories(seed_of(ctx, 40), 200 * mult, K(crypt=4, pack=2, buf=2), "c_")
    jobs.append(Job("asan", armed(seed_of(ctx, 41), h, 5), 165, "TraceAcc"))
    return jobs

def decide_view(ctx):
    quick, deep, rand = VIEWS[ctx.prop]
    jobs = []
    specs = quick + deep if ctx.thorough else quick
    for s, h in zip(specs, engine.run_tours(ctx, specs)):
        jobs.append(Job("asan", h, module="TraceView"))
    for i, (variant, n, prof, fill) in enumerate(rand):
        jobs.append(Job(variant, gen_view.histories(seed_of(ctx, i), n * (15 if ctx.thorough else 1), prof, "r%d_" % i), fill, "TraceView"))
    only = rand[0][2].get("only")
    jobs.append(Job("opt", gen_view.histories(seed_of(ctx, 60), 150 * (4 if ctx.thorough else 1), dict({"only": only} if only else {}, wide=0.07), "w_"), 165, "TraceView"))
    jobs.append(Job("opt", gen_view.far(seed_of(ctx, 62), only), 165, "TraceView"))
    jobs.append(Job("asan", gen_view.pairs(seed_of(ctx, 67), only), 165, "TraceView"))
    if ctx.thorough:
        jobs.append(Job("clang", sum((gen_view.pairs(seed_of(ctx, 68 + k), only, "q%d_" % k) for k in range(6)), []), 165, "TraceView"))
        jobs.append(Job("clang", sum((gen_view.far(seed_of(ctx, 63 + k), only, "g%d_" % k) for k in range(4)), []), 165, "TraceView"))
    if ctx.prop == "V01":
        jobs.append(Job("yield", gen_view.histories(seed_of(ctx, 61), 60 * (10 if ctx.thorough else 1), dict(wide=0.2), "x_"), 165, "TraceView"))
    if ctx.prop == "V06":
        for i, v in enumerate(["asan", "opt"]):
            jobs.append(Job(v, gen_view.histories(seed_of(ctx, 70 + i), 200 * (10 if ctx.thorough else 1), {"huge": 1}, "h%d_" % i), 165, "TraceView"))
    return jobs

def decide_inter(ctx):
    def m(ops, maxint=1):
        return ("MC_StrIndep", {"OPS": opset(ops), "MAXINT": maxint, "NSLOTS": 2, "LITLEN": 1, "ALLOCS": "2"})
    ms = [m(["append", "prepend", "assign", "cat", "printf"]), m(["append", "strip", "insert", "using", "tocstr"])]
    if ctx.thorough:
        ms += [m(["append", "strip", "grow", "shrink"], 2), m(["insert", "tocstr"], 2), m(["before", "after", "char", "aprintf"])]
    with ThreadPoolExecutor(2) as pool:
        list(pool.map(lambda x: engine.model(ctx, x[0], x[1], workers=4), ms))
    return inter.decide(ctx, seed_of(ctx, 0))

def decide(ctx):
    if ctx.prop == "X01":
        return decide_inter(ctx)
    jobs = decide_fault(ctx) if ctx.prop == "B15" else {"B": decide_buf, "V": decide_view, "N": decide_num, "A": decide_acc}[ctx.prop[0]](ctx)
    mis = engine.execute(ctx, jobs)
    return engine.report(ctx, mis)

def has(prop):
    return prop in ("X01", "B15") or prop in BUF or prop in VIEWS or prop in NUMS or prop in ACCS
