"""Histories from the transition graphs of MC_StrAcc (see tour.py)."""
import tour
from tour import hx, parse

KEY = [bytes(range(32)).hex(), bytes((i * 37 + 11) % 256 for i in range(32)).hex()]
IV = {(0, 0): bytes(16).hex(), (1, 3): bytes((i * 91 + 5) % 256 for i in range(16)).hex()}
TYPES = {1: ("u8", "i8"), 2: ("u16", "i16"), 4: ("u32", "i32"), 8: ("u64", "i64")}

def start(x):
    a = x["a"]
    return a["st"]["buf"][0]["k"] == "null" and a["av"][0] == 0 and a["st"]["buf"][0]["cap"] == 0 and x["nx"] == 0

def io_line(e, r):
    op, s = e["op"], e["s"]
    if op == "create": return "create 1 %d 2 0" % e["i"]
    if op == "fixed": return "fixed 1 %d 0 0" % e["i"]
    if op in ("rd", "wr"): return "%s %d a %d %d" % (op, s, e["i"], r.randint(0, 255))
    if op == "vw": return "vw %d a %d 0" % (e["nul"], e["i"])
    if op == "vbuf": return "vbuf 1"
    if op in ("vinv",): return op
    if op in ("shrink", "destroy"): return "%s 1" % op
    if op == "grow": return "grow 1 %d" % e["i"]
    if op == "append": return "append 1 0 L " + hx(e["a"][0]["b"])
    if op == "pack":
        x = bytes(e["x"])
        k = r.choice([1, 50, 100])
        x = bytes((c * k + 3) % 256 for c in x)
        return "pack 1 %s %s %s" % (r.choice(TYPES[len(x)]), "lb"[e["be"]], hx(x + bytes(8 - len(x))))
    if op == "unpack": return "unpack %s %s" % (r.choice(TYPES[e["n"]]), "lb"[e["be"]])
    raise AssertionError(op)

def scale(n, r):
    """toy blocks of 2 bytes stand for AES blocks of 16"""
    return 16 * (n // 2) + (r.choice([1, 7, 8, 14, 15]) if n % 2 else 0)

def crypt_line(e, r):
    op, s = e["op"], e["s"]
    if op in ("create", "fixed"):
        c = scale(e["i"] - (op == "fixed"), r)
        return "create 1 %d 2 0" % c if op == "create" else "fixed 1 %d 0 0" % (c + 1)
    if op == "assign":
        b = e["a"][0]["b"]
        n = scale(len(b), r)
        return "assign 1 L " + hx(bytes((b[i * len(b) // n] * 85 + i * (r.random() < 0.5)) % 256 for i in range(n)))
    if op in ("enc", "dec"): return "%s %d %s %s" % (op, s, KEY[e["key"]], IV[tuple(e["iv"])])
    if op == "poke": return "poke 1 %d %d" % (16 * (e["i"] // 2) + (15 if e["i"] % 2 else r.randint(0, 14)), {1: 1, 3: r.randint(1, 255)}[e["n"]])
    return io_line(e, r)

def io_tours(edges, seed, maxlen=90, tag="t", budget=None):
    return tour.tours(edges, seed, maxlen, tag, budget, io_line, "a", start)
def crypt_tours(edges, seed, maxlen=60, tag="t", budget=None):
    return tour.tours(edges, seed, maxlen, tag, budget, crypt_line, "a", start)
