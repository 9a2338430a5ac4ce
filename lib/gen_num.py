"""Seeded generator of number conversions (family n)."""
import random, sys
sys.set_int_max_str_digits(20000)
from fractions import Fraction

def hx(b):
    return bytes(b).hex() if len(b) else "-"

UNS = ["uchar", "ushort", "uint", "ulong", "ullong"]
SIG = ["char", "short", "int", "long", "llong"]
FIXED = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
FLT = ["float", "double", "ldouble"]
WIDTH = {"char": 1, "uchar": 1, "i8": 1, "u8": 1, "short": 2, "ushort": 2, "i16": 2, "u16": 2, "int": 4, "uint": 4, "i32": 4, "u32": 4,
         "long": 8, "ulong": 8, "llong": 8, "ullong": 8, "i64": 8, "u64": 8, "float": 4, "double": 8, "ldouble": 10}
RANGE10 = {"float": (-38, 38), "double": (-308, 308), "ldouble": (-4932, 4932)}
MAXF = {"float": (2 ** 24 - 1) * 2 ** 104, "double": (2 ** 53 - 1) * 2 ** 971, "ldouble": (2 ** 64 - 1) * 2 ** 16320}

def base_digits(n, base, r):
    if base == 10:
        return str(n)
    s = format(n, "b" if base == 2 else "x")
    return "".join(r.choice([c, c.upper()]) for c in s) if base == 16 else s

class Gen:
    """prof: dict(fns=types, ops=('num','val'), long=probability of a very long text)"""
    def __init__(self, rng, prof=None):
        prof = prof or {}
        self.r = rng
        self.fns = prof.get("fns", UNS + SIG + FLT)
        self.ops = prof.get("ops", ("num", "num", "num", "val"))
        self.long = prof.get("long", 0.01)
        self.bad = prof.get("bad", 0.2)

    def opts(self, flt):
        r = self.r
        if r.random() < 0.5:
            return 0
        o = r.choice([0, 0, 1, 2, 2])
        for bit in (4, 8, 16, 32):
            if r.random() < 0.25:
                o |= bit
        return o

    def magnitude(self, fn):
        r = self.r
        w = WIDTH.get(fn, 4)
        k = r.random()
        if k < 0.35:
            lim = r.choice([2 ** (8 * w), 2 ** (8 * w - 1), 2 ** (8 * w) // 10, 2 ** 32, 2 ** 64, 2 ** 63, 2 ** 64 // 10, 2 ** 32 // 10])
            return max(0, lim + r.choice([-11, -10, -9, -2, -1, 0, 1, 2, 9, 10, 11, r.randint(-100, 100)]))
        if k < 0.55:
            return r.randint(0, 300)
        if k < 0.8:
            return r.getrandbits(r.randint(1, 8 * w))
        if k < 0.9:
            return r.getrandbits(r.choice([63, 64, 65, 66, 67, 68, 70, 80]))
        return r.choice([10 ** r.randint(0, 25), 2 ** r.randint(0, 80), 16 ** r.randint(0, 20), 2 ** 64 + r.getrandbits(r.randint(1, 64))])

    def zeros(self):
        r = self.r
        k = r.random()
        if k < 0.7:
            return ""
        if k < 1 - self.long:
            return "0" * r.choice([1, 1, 2, 3, 9, 10, 19, 20, 21, 64, 70])
        return "0" * r.choice([255, 256, 257, 1000, 3000])

    def int_text(self, fn, o):
        r = self.r
        signed = fn in SIG or fn[0] == "i"
        base = 2 if o & 1 else 16 if o & 2 else 10
        pre = ""
        if r.random() < 0.35:
            b2 = r.choice([2, 16]) if not o & 3 else base
            pre, base = ("0b" if b2 == 2 else "0x"), b2
            if r.random() < 0.4:
                pre = pre.upper().replace("0B", "0B")
        s = " " * r.choice([0, 0, 0, 1, 2, 5])
        s += r.choice(["", "", "", "-", "+"]) if signed else r.choice(["", "", "", "", "", "-", "+"])
        s += pre + self.zeros() + base_digits(self.magnitude(fn), base, r)
        return s + self.tail()

    def tail(self):
        r = self.r
        return r.choice(["", "", "", " ", "z", "g", ".5", "e3", "-", "+1", ",", "\0", "\xff", "f", "2", "9", "x", "b", " 7", "_", "A", "/", ":", "@", "G", "`"])

    def exact(self, fn, digits):
        """decimal text of about `digits' digits close to an interesting value"""
        r = self.r
        v = r.choice([Fraction(MAXF[fn]), Fraction(MAXF[fn]) * Fraction(10 ** 6 + r.choice([-2000, 2000, -90000, 100000]), 10 ** 6)])
        i = int(v)
        s = str(i)
        return s[:digits] + "0" * max(0, len(s) - digits)

    def dec_text(self, fn):
        r = self.r
        lo, hi = RANGE10[fn]
        k = r.random()
        def digits(n):
            m = r.random()
            if m < 0.15:
                return "0" * n
            if m < 0.25:
                return "9" * n
            if m < 0.35 and n > 1:
                z = r.randint(1, n - 1)
                return "0" * z + "".join(r.choice("0123456789") for _ in range(n - z))
            if m < 0.45 and n > 1:
                return r.choice("123456789") + "0" * (n - 2) + r.choice("0123456789")
            if m < 0.53 and n > 1:
                z = r.randint(1, n - 1)
                return "".join(r.choice("123456789") for _ in range(n - z)) + "0" * z
            return "".join(r.choice("0123456789") for _ in range(n))
        def count():
            m = r.random()
            return 0 if m < 0.12 else r.randint(1, 5) if m < 0.5 else r.randint(6, 22) if m < 0.8 else r.randint(19, 45) if m < 0.95 else r.randint(40, 400)
        if k < 0.06:
            t = self.exact(fn, r.randint(5, 40))
            if r.random() < 0.5:
                n = r.randint(1, len(t) - 1)
                t = t[:n] + "." + t[n:]
                t += "e%d" % (len(t) - 1 - n)
            return t
        if k < 0.12:                       # many zeros around the point
            z = r.randint(1, 60 if fn == "float" else 400)
            t = "0." + "0" * z + digits(r.randint(1, 12)) if r.random() < 0.5 else digits(r.randint(1, 12)) + "0" * z
            if r.random() < 0.7:
                e = z if t.startswith("0.") else -z
                t += "e%d" % (e + r.choice([0, 1, -1, lo + 5, hi - 12, r.randint(lo, hi)]))
            return t
        a, b = count(), count()
        t = digits(a)
        if b or r.random() < 0.3:
            t += "." + digits(b)
        if r.random() < 0.6:
            # choose the exponent so that the magnitude lands somewhere interesting
            target = r.choice([r.randint(lo - 3, hi + 3), r.randint(-5, 5), lo + r.randint(-3, 4), hi + r.randint(-3, 3)])
            m = r.random()
            if a > 19 and m > 0.6: m = 0.99
            e = target - a if m < 0.75 else r.randint(-6, 6) if m < 0.92 else r.choice([2147483647, 2147483647 - r.randint(0, 30), -2147483648 + r.randint(0, 30), -2147483648, 2147483648, -2147483649, 99999999999, 100000000, -100000000, 4294967296, 0])
            es = ("%d" % e) if r.random() < 0.7 else ("%+d" % e)
            if r.random() < 0.1:
                es = es.replace("-", "-00") if "-" in es else es.replace("+", "+00") if "+" in es else "00" + es
            t += r.choice("eE") + es
        return t

    def flt_text(self, fn, o):
        r = self.r
        s = " " * r.choice([0, 0, 0, 0, 1, 3]) + r.choice(["", "", "", "-", "-", "+"])
        k = r.random()
        if k < 0.1:
            w = r.choice(["inf", "infinity", "nan", "infinit", "infi", "na", "in", "nans", "infinityx", "i", "n", "inf.5", "nane5"])
            s += "".join(r.choice([c, c.upper()]) for c in w)
        elif k < 0.17:
            s += r.choice(["0", "0.0", ".0", "0.", "00", "000.000", "0e5", "0e400", "0.0e-500", "0e99999", "-0", "1e", "1e+", "1e-", "1ex", "1e 5", "1 e5", ".", ".e5", "e5", "5.e3",
                           ".5e1", "5.", "..5", "1..2", "1.2.3", "0x10", "0b1", "1e5.5", "1e0x5", "1E5", "1e5e5", "+-1", "--1", "1_0", "1,5", "infe", "1inf"])
        else:
            s += self.dec_text(fn)
        return s + (self.tail() if r.random() < 0.5 else "")

    def junk(self):
        r = self.r
        al = r.choice(["0123456789abcdefxXbB+-. eE", " -+0", "0x", "0b12", ".e0-", "infnaINFNA ty", "".join(map(chr, range(256)))])
        return "".join(r.choice(al) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12])))

    def df(self, fn):
        r = self.r
        w = WIDTH[fn]
        b = [r.randrange(256) for _ in range(w)]
        if fn == "ldouble":
            b[7] |= 128; b[8] = r.randrange(255); b[9] = r.randrange(127)
        if fn == "double":
            b[6] = r.randrange(16); b[7] = r.choice([64, 63, 192, 1])
        if fn == "float":
            b[2] = r.randrange(128); b[3] = r.choice([64, 63, 192, 1])
        return bytes(b)

    def history(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            fn = r.choice(self.fns)
            o = self.opts(fn in FLT)
            k = r.random()
            if k < 0.03:
                out.append("src " + r.choice(["N", "Z"]))
            else:
                parts = []
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    parts.append(self.junk() if r.random() < self.bad else self.flt_text(fn if fn in FLT else "float", o) if fn in FLT or r.random() < 0.05 else self.int_text(fn, o))
                t = bytearray("".join(parts).encode("latin-1"))
                while r.random() < 0.12:           # one byte changed or added anywhere
                    i = r.choice([0, 0, r.randint(0, len(t)), len(t)]); c = r.choice([r.randrange(256), r.choice(b" \t\n\v\f\r\0-+.0xXbBeE9")])
                    if i < len(t) and r.random() < 0.4: t[i] = c
                    else: t.insert(i, c)
                out.append("src " + hx(bytes(t)))
            absent = out[-1].endswith("Z")
            at = len(out) - 1
            for _ in range(r.choice([1, 1, 2, 3])):
                op = r.choice(self.ops)
                f = fn if r.random() < 0.8 else r.choice(self.fns)
                oo = o if r.random() < 0.8 else self.opts(f in FLT)
                if op == "val" and not absent:
                    out.append("val %s %d %s" % (f, oo, hx(self.df(f))))
                elif f not in FIXED:
                    out.append("num %s %d %d %d" % (f, oo, r.randint(0, 1), 0 if r.random() < 0.06 else 1))
                if r.random() < 0.1:
                    out.append("skip %d" % r.randint(0, 3))
            if r.random() < 0.15 and out[at][4:] not in ("N", "Z", "-"):    # the text changes in place, and the same calls again
                t = bytearray.fromhex(out[at][4:])
                for _ in range(r.choice([1, 1, 2])):
                    t[r.choice([0, len(t) - 1, r.randrange(len(t))])] = r.choice(b"0123456789" if r.random() < 0.8 else b" -+.0xXbBeEaf\0z")
                out += ["src " + hx(t)] + out[at + 1:]
        return out

def histories(seed, n, prof=None, tag="n"):
    g = Gen(random.Random(seed), prof)
    return [("%s%d" % (tag, i), "n", g.history()) for i in range(n)]

def limits(ops, fns, seed, tag="l"):
    """every function at and around the limits of every width, in every base, with every sign"""
    r = random.Random(seed); out = []
    fns = [f for f in fns if f not in FLT]
    g = Gen(r)
    vals = sorted({max(0, 2 ** b + d) for w in (8, 16, 32, 64) for b in (w - 1, w) for d in (-1, 0, 1)} | {0, 1, 9, 10})
    for fn in fns:
        for v in vals:
            cur = []
            for base, pre, o in [(10, "", 0), (16, "0x", 0), (16, "", 2), (2, "", 1), (2, "0b", 0)]:
                for sg in ("", "-", "+"):
                    t = sg + pre + r.choice(["", "", "00"]) + base_digits(v, base, r) + r.choice(["", "", ";", " 1"])
                    o2 = o | r.choice([0, 0, 0, 8])
                    cur.append("src " + hx(t.encode()))
                    for op in ops:
                        if op == "val": cur.append("val %s %d %s" % (fn, o2, hx(g.df(fn))))
                        elif fn not in FIXED: cur.append("num %s %d %d 1" % (fn, o2, r.randint(0, 1)))
            out.append(("%s%d" % (tag, len(out)), "n", cur))
    return out

# texts with one byte left open: every byte value takes its place
HOLES_INT = ["@1", " @1", "-@1", "+@7", "@", "0@1", "0@", "0x@", "0x1@", "0xa@f", "0b@", "0b1@", "0b10@1", "1@", "1@2", "25@", " -@", "@x1", "@b1"]
HOLES_FLT = ["@1", " @1", "-@1", "@.5", ".@", "1@", "1@5", "1.@", "1.5@", "1@e2", "1e@", "1e@5", "1e-@", "1e1@", "1e+@2", "@nf", "i@f", "in@", "inf@", "n@n", "na@", "infinit@", "infin@ty"]
def bytegrid(ops, fns, seed, tag="g"):
    r = random.Random(seed); out = []; g = Gen(r)
    ints = [f for f in fns if f not in FLT]; flts = [f for f in fns if f in FLT]
    kinds = [([f for f in ints if f in SIG or f[0] == "i"], HOLES_INT), ([f for f in ints if f in UNS or f[0] == "u"], HOLES_INT), (flts, HOLES_FLT)]
    for fs, holes in kinds:
        if not fs: continue
        for h in holes:
            cur = []
            for b in range(256):
                if len(cur) > 60: out.append(("%s%d" % (tag, len(out)), "n", cur)); cur = []
                fn, op = r.choice(fs), r.choice(ops)
                if op != "val" and fn in FIXED: fn = r.choice([f for f in fs if f not in FIXED])
                o = r.choice([0, 0, 0, 0, 1, 2, 4, 8, 16, 32]) if fs is not flts else r.choice([0, 0, 0, 8, 16, 32])
                cur.append("src " + hx(h.encode().replace(b"@", bytes([b]))))
                cur.append("val %s %d %s" % (fn, o, hx(g.df(fn))) if op == "val" else "num %s %d %d 1" % (fn, o, r.randint(0, 1)))
            out.append(("%s%d" % (tag, len(out)), "n", cur))
    return out

def far(ops, fns, seed, tag="d"):
    """blanks, zeros, exponents and following text longer than any small counter"""
    r = random.Random(seed); out = []; g = Gen(r)
    ints = [f for f in fns if f not in FLT and (f not in FIXED or "val" in ops)]; flts = [f for f in fns if f in FLT]
    def add(fn, o, t):
        op = r.choice(ops)
        if fn in FIXED: op = "val"
        out.append(("%s%d" % (tag, len(out)), "n", ["src " + hx(t.encode()), "val %s %d %s" % (fn, o, hx(g.df(fn))) if op == "val" else "num %s %d %d 1" % (fn, o, r.randint(0, 1))]))
    for n in (127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537):
        if n > 5000 and r.random() < 0.5: continue
        if ints:
            for fs in ([f for f in ints if f in SIG or f[0] == "i"], [f for f in ints if f in UNS or f[0] == "u"]):
                if not fs: continue
                add(r.choice(fs), 0, " " * n + "7;")
                add(r.choice(fs), r.choice([0, 0, 8]), "0" * n + "42;")
                add(r.choice(fs), *r.choice([(0, "0x" + "0" * n + "2a"), (2, "0" * n + "2A"), (1, "0" * n + "101010"), (0, "0b" + "0" * n + "11")]))
                add(r.choice(fs), 0, "12" + " " * n)
                add(r.choice(fs), r.choice([0, 4]), " " * n + "+")
        if flts:
            add(r.choice(flts), 0, " " * n + "2.5;")
            add(r.choice(flts), r.choice([0, 0, 8]), r.choice(["", "-"]) + "0" * n + "42.25;")
            add(r.choice(flts), 0, "0." + "0" * n + "125e%d" % n)
            add(r.choice(flts), 0, "125" + "0" * n + "e-%d" % n)
            add(r.choice(flts), 0, "1.5" + "0" * n + "x")
            add(r.choice(flts), 0, "2e" + r.choice(["", "-", "+"]) + "0" * n + "3")
            add(r.choice(flts), 0, "2.5e1" + "x" * n)
            add(r.choice(flts), 16, "inf" + " " * n)
            if n < 5000:
                d = "".join(r.choice("0123456789") for _ in range(n))
                add(r.choice(flts), 0, r.choice(["0." + d, "3" + d + "e-%d" % n, d[:n // 2] + "." + d[n // 2:] + "e-%d" % r.randint(n // 2, n)]))
    return out

def sweep(ops, fns, seed, every=False, tag="w"):
    """every value near the range of the 8-bit types (of the 16-bit types: `every'), and numbers of every length of regular digits for all types"""
    r = random.Random(seed); out = []; g = Gen(r); cur = []
    def add(fn, o, t):
        if len(cur) > 120: out.append(("%s%d" % (tag, len(out)), "n", list(cur))); cur.clear()
        cur.append("src " + hx(t.encode()))
        cur.append("val %s %d %s" % (fn, o, hx(g.df(fn))) if fn in FIXED or ("val" in ops and r.random() < 0.5) or "num" not in ops else "num %s %d %d 1" % (fn, o, r.randint(0, 1)))
    fns = [f for f in fns if f not in FLT and (f not in FIXED or "val" in ops) and (f in FIXED or "num" in ops)]
    forms = [(10, "", 0), (10, "", 0), (16, "0x", 0), (16, "", 2), (2, "0b", 0), (2, "", 1)]
    for fn in fns:
        signed = fn in SIG or fn[0] == "i"
        small = fn in ("uchar", "char", "u8", "i8")
        if small or (every and fn in ("ushort", "short", "u16", "i16")):
            top = 300 if small else 66000
            for v in range(0, top):
                for sg in ("", "-") if signed and v <= top // 2 + 10 else ("",):
                    b, pre, o = r.choice(forms)
                    add(fn, o, sg + pre + base_digits(v, b, r))
        for base, pre, o in forms[1:4] + forms[5:]:
            for n in range(1, {10: 23, 16: 19, 2: 67}[base]):
                if base == 2 and n not in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65) and r.random() < 0.7: continue
                d = r.choice(["1", "9", "8", "7", "5"]) if base == 10 else r.choice("f8A7") if base == 16 else "1"
                for t in (d * n, "1" + "0" * (n - 1), d + "0" * (n - 2) + "1" if n > 1 else "0"):
                    if r.random() < 0.6: add(fn, o, (r.choice(["", "-", "+"]) if signed else r.choice(["", "", "", " "])) + pre + t)
    if cur: out.append(("%s%d" % (tag, len(out)), "n", cur))
    return out
