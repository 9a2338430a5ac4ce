"""Seeded generator of call histories on buffers (scripts for the conformance driver)."""
import random

def hx(b):
    return bytes(b).hex() if len(b) else "-"

TEXTS = [b"", b"a", b"ab", b"Hello", b"{}", b"one, two;three", b"\0", b"a\0b", b"\xff\x80", b"  pad  ", b"%d%s%%", b"\r\n"]

class Gen:
    def __init__(self, rng, prof=None):
        self.r = rng
        self.p = {"fixed": 0.3, "self": 0.3, "null": 0.05, "big": 0.01, "allocs": (1, 2, 3, 4), "long": 0.05,
                  "nslot": 2, "cs": 0.25, "len": (4, 14), "defalloc": 0.2}
        self.w = {"append": 6, "prepend": 4, "insert": 6, "before": 3, "after": 3, "assign": 4, "strip": 3, "char": 3,
                  "cat": 4, "vcat": 2, "printf": 2, "aprintf": 2, "prnf": 2, "aprnf": 2, "using": 2, "view": 1,
                  "grow": 2, "growr": 1, "shrink": 2, "create": 1, "init": 1, "fixed": 1, "static": 1, "destroy": 1,
                  "tocstr": 1, "freecs": 0.5}
        if prof:
            self.p.update(prof.get("p", {}))
            for k, v in prof.get("w", {}).items():
                self.w[k] = v
            if "only" in prof:
                self.w = {k: v for k, v in self.w.items() if k in prof["only"]}
        self.ops = list(self.w)
        self.ws = [self.w[k] for k in self.ops]

    # ---- data
    def nbytes(self):
        r = self.r.random()
        if r < self.p["long"]:
            return self.r.choice([15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, self.r.randint(40, 600)])
        if r < 0.12:
            return 0
        if r < 0.8:
            return self.r.randint(1, 8)
        return self.r.randint(1, 40)

    def data(self, n=None, nz=False):
        n = self.nbytes() if n is None else n
        k = self.r.random()
        if k < 0.35:
            al = b"ab"
        elif k < 0.6:
            al = b"abcABC 0123,;"
        elif k < 0.8:
            al = bytes(range(256))
        else:
            al = b"\0a\xff\x80\x7f\n"
        if k > 0.95:
            b = self.r.choice(TEXTS)
        else:
            b = bytes(self.r.choice(al) for _ in range(n))
        if nz:
            b = bytes(c if c else 97 for c in b)
        return b

    def sl(self):
        s = self.r.randint(1, self.p["nslot"])
        return 0 if self.r.random() < self.p["null"] * 0.5 else s

    def off(self):
        return self.r.choice([0, 0, 1, 2, 3, self.r.randint(0, 700), self.r.randint(0, 20)])

    def arg(self, viewonly=False, nobig=False):
        r = self.r.random()
        p = self.p
        if r < p["self"]:
            if not viewonly and self.r.random() < 0.15:
                return "T %d" % self.off()
            return "S %d %d" % (self.off(), self.r.choice([self.off(), 700, 1, 2]))
        if r < p["self"] + 0.06:
            return "O %d %d %d" % (self.r.randint(1, p["nslot"]), self.off(), self.off())
        if r < p["self"] + 0.09:
            return "N" if viewonly or self.r.random() < 0.6 else "c"
        if not nobig and self.r.random() < p["big"]:
            return "b %d" % self.r.choice([0, 0, 0, 1, 2, 100, 1000])
        if self.r.random() < 0.15:
            return "%s %d %d" % (self.r.choice("FFFA"), self.r.choice([0, 0, 0, 1, -1, 2, -2, 16]), self.r.randint(0, 99))
        if not viewonly and self.r.random() < p["cs"]:
            return "C " + hx(self.data())
        return "L " + hx(self.data())

    def index(self):
        r = self.r.random()
        if r < 0.1:
            return self.r.choice([2147483647, -2147483648, -2147483647, 1000000, -1000000])
        if r < 0.5:
            return self.r.randint(-6, 6)
        return self.r.randint(-50, 50)

    def al(self):
        return 0 if self.r.random() < self.p["defalloc"] else self.r.choice(self.p["allocs"])

    def create(self, s=None):
        s = s or self.r.randint(1, self.p["nslot"])
        if self.r.random() < self.p["fixed"]:
            if self.r.random() < 0.7:
                bad = self.r.random() < 0.12
                size = self.r.choice([1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 18, 33, 65, self.r.randint(1, 200)])
                if bad:
                    k = self.r.randint(0, 3)
                    return ("fixed %d %d %d %d" % (s, self.r.choice([0, -1, -5, -24, -1000]) if k == 0 else size,
                                                   self.r.randint(1, 7) if k == 1 else 0, 1 if k == 2 else 0))
                return "fixed %d %d 0 0" % (s, size)
            if self.r.random() < 0.5:
                return "static %d %d 0" % (s, self.r.choice([0, 1, 2, 5, 7, 16, 33, 33, 300, 70000]))
            return "static %d %d 1" % (s, self.r.choice([0, 3, 8, 20, 300, 70000]))
        al = self.al() if self.r.random() > 0.03 else -1
        if self.r.random() < 0.5:
            cap = self.r.choice([0, 0, 1, 2, 3, 5, 8, 15, 16, 17, 32, 100, self.r.randint(0, 300)])
            if self.r.random() < 0.04:
                cap = -self.r.randint(1, 10)
            return "create %d %d %d %d" % (s, cap, al, self.r.randint(0, 2))
        a = ("L " + hx(self.data())) if self.r.random() < 0.9 else "N"
        if self.r.random() < 0.15:
            a = "O %d %d %d" % (self.r.randint(1, self.p["nslot"]), self.off(), self.off())
        return "init %d %d %d %s" % (s, al, self.r.randint(0, 1), a)

    def loc(self):
        r = self.r.random()
        if r < 0.75:
            return "S %d %d" % (self.off(), self.r.choice([0, 1, 2, 5, 700]))
        if r < 0.80:
            return "X"
        if r < 0.87:
            return "%s %d %d" % (self.r.choice("YYZ"), self.off(), self.off())
        if r < 0.93:
            return "F " + hx(self.data(self.r.randint(1, 6)))
        return "N"

    def fmt(self, op, s):
        prnf = "prnf" in op
        shapes = [0, 1, 2, 3, 4, 5, 6] + ([] if prnf else [7, 8])
        sh = self.r.choice(shapes)
        a = self.data(nz=True); b = self.data(nz=True)
        if sh == 0:
            a = bytes(c for c in a if c != 37 and (c != 11 or not prnf))
        if sh in (2, 6) and self.r.random() < 0.3:
            a = b"z" * self.r.choice([50, 99, 100, 127, 128, 255, 256, 257, 300, 511, 512, 513])
        v = self.r.choice([0, 1, -1, 7, 42, -42, 2147483647, -2147483648, self.r.randint(-99999, 99999)])
        c = self.r.choice([65, 97, 48, 32, 37, 126, 33]) if sh == 4 else self.r.randint(-99999, 999999)
        if prnf:
            c = abs(c)                 # the bundled formatter zero-pads in front of the sign
        return "%s %d %d %d %d %s %s %d" % (op, s, self.r.randint(0, 1) if sh != 8 else 0, sh, v, hx(a), hx(b), c)

    def op(self):
        o = self.r.choices(self.ops, self.ws)[0]
        s = self.sl()
        if o in ("append", "prepend", "strip"):
            return "%s %d %d %s" % (o, s, self.r.randint(0, 1), self.arg(nobig=(o == "strip")))
        if o == "insert":
            return "insert %d %d %d %s" % (s, self.r.randint(0, 1), self.index(), self.arg())
        if o in ("before", "after"):
            return "%s %d %d %s %s" % (o, s, self.r.randint(0, 1), self.loc(), self.arg())
        if o == "assign":
            return "assign %d %s" % (s, self.arg(viewonly=True, nobig=True))
        if o == "char":
            return "char %d %d" % (s, self.r.choice([0, 97, 98, 255, 128, self.r.randint(0, 255)]))
        if o in ("cat", "vcat"):
            n = self.r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16])
            if self.r.random() < 0.06:
                n = self.r.choice([20, 31, 32, 33, 63, 64, 65, 126, 127, self.r.randint(17, 125)] + ([128, 129, 200, 255, 256, 257, 290] if o == "vcat" else []))
            if n > 16:
                args = []
                for _ in range(n):
                    k = self.r.random()
                    args.append("S %d %d" % (self.off(), self.r.randint(0, 3)) if k < self.p["self"] * 0.5 else
                                "L " + hx(self.data(self.r.randint(0, 3))))
            else:
                big = self.r.random() < self.p["big"] * 4
                args = [self.arg(viewonly=True, nobig=True) for _ in range(n)]
                if big:
                    for _ in range(2):
                        args[self.r.randrange(n)] = "B 2147483647"
                    if n == 1 or sum(a.startswith("B") for a in args) < 2:
                        args = ["B 2147483647", "B 2147483646"] + args[2:]
                        n = len(args)
            return "%s %d %d %s" % (o, s, n, " ".join(args))
        if o in ("printf", "aprintf", "prnf", "aprnf"):
            return self.fmt(o, s)
        if o == "using":
            if self.r.random() < 0.5:
                return "using %d r %d %d" % (s, self.r.choice([0, 0, 0, 1, -1, -2, 5, -5, 100000, -100000]), self.r.randint(0, 255))
            return "using %d a %d %d" % (s, self.r.choice([0, 1, 2, 3, -1, -2147483648, 2147483647, 8]), self.r.randint(0, 255))
        if o in ("view", "shrink", "destroy", "tocstr"):
            return "%s %d" % (o, s)
        if o == "grow":
            return "grow %d %d" % (s, self.r.choice([0, 1, 2, 8, 16, 17, 33, 64, 100, 300, -1, -5, self.r.randint(0, 700)]))
        if o == "growr":
            return "growr %d %d" % (s, self.r.choice([0, 1, -1, 2, -2, 5, 16, -16]))
        if o in ("create", "init", "fixed", "static"):
            return self.create()
        if o == "freecs":
            return "freecs %d" % self.r.randint(0, 5)
        raise AssertionError(o)

    WOPS = ["append", "prepend", "insert", "insert", "before", "after", "assign", "strip", "cat", "append"]
    def wide(self):
        """contents, capacities, operands and free space beyond what one or two bytes can count"""
        r, p = self.r, self.p
        n = r.choice([66000, 65537, 65600, 65535]) if r.random() < p.get("wide64", 0) else r.choice([255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, r.randint(258, 1500)])
        far = lambda: r.choice([n - 1, n - 5, r.randint(0, n), r.randint(n // 2, n)])
        few = lambda m: "L " + hx(self.data(r.randint(0, m)))
        fill = lambda m: bytes((i * 7 + i // 251 + k) & 255 for i in range(m))
        me = lambda: "S %d %d" % (far(), r.choice([0, 1, 3, 8, 40])) if r.random() < 0.9 else few(4)
        k = r.randint(0, 255)
        extra = r.choice([0, 0, 1, 2, 3, 5, 16, 40, 256, 300, n // 2, n])
        fixed = r.random() < p["fixed"]
        if fixed:
            out = ["fixed 1 %d 0 0" % (n + 1 + extra), "assign 1 L " + hx(fill(n))]
        elif r.random() < 0.3:
            out = ["create 1 %d %d %d" % (n + extra, self.al(), r.randint(0, 2)), "%s L %s" % (r.choice(["assign 1", "append 1 0"]), hx(fill(n)))]
        else:
            out = ["init 1 %d %d L %s" % (self.al(), r.randint(0, 1), hx(fill(n)))]
        ops = p.get("wops") or self.WOPS
        for _ in range(r.randint(1, 2) if n > 2000 else r.randint(2, 5)):
            if not fixed and r.random() < p.get("wshrink", 0.5): out.append("shrink 1")
            o = r.choice(ops)
            at = r.choice([far(), -far(), -1, 0, 256, 1 << 16])
            if o == "assign": out.append("assign 1 S %d %d" % (r.randint(0, 3), r.choice([n, n - 1, n // 2, r.randint(0, n)])))
            elif o == "strip":
                a = r.random()
                out.append("strip 1 %d %s" % (r.randint(0, 1), "S %d 700" % r.randint(0, 5) if a < 0.5 else "L " + hx(r.sample(range(256), r.choice([1, 2, 5, 100, 255, 256])))
                                              if a < 0.8 else "L " + hx(fill(r.choice([256, 257, 300, 512])))))
            elif o == "cat": out.append("%s 1 %d %s %s" % (r.choice(["cat", "vcat"]), *r.choice([(2, me(), me()), (3, "S 0 %d" % n, me() + " " + few(3)), (2, "S 0 %d" % r.randint(0, n), "S %d %d" % (r.randint(0, 9), n)), (3, few(3), me() + " S 0 %d" % n)])))
            elif o == "insert": out.append("insert 1 %d %d %s" % (r.randint(0, 1), at, me()))
            elif o in ("before", "after"): out.append("%s 1 %d S %d %d %s" % (o, r.randint(0, 1), far(), r.choice([0, 2, 256, n]), me()))
            elif o in ("append", "prepend"): out.append("%s 1 %d %s" % (o, r.randint(0, 1), r.choice([me(), me(), "S 0 %d" % n, "F %d 1" % r.choice([0, 1, -1])])))
            elif o == "char": out += ["char 1 %d" % r.choice([0, 65, 255])] * r.choice([1, 2, 17])
            elif o in ("printf", "aprintf", "prnf", "aprnf"):
                m = r.choice([255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, r.randint(1, 3000)] + ([4095, 4096, 4097, 65535, 65536] if n > 2000 else []))
                out.append("%s 1 %d %d %d %s %s %d" % (o, r.randint(0, 1), r.choice([2, 2, 3, 6, 0]), r.choice([0, -1, 42]), hx(bytes(97 + (i + k) % 26 for i in range(m))), hx(b"bc"), 5))
            elif o == "using":
                if r.random() < 0.7: out.append("using 1 r %d %d" % (r.choice([0, 0, 0, 1, -1, -2]), r.randint(0, 255)))
                else: out.append("using 1 a %d %d" % (r.choice([0, 1, 255, 256, 257, 300, 65536, 65535, -1]), r.randint(0, 255)))
            elif o == "grow": out.append("grow 1 %d" % (n + r.choice([-1, 0, 1, 2, 16, 256, 300, 1000, n])))
            elif o in ("tocstr", "destroy"): out.append("%s 1" % o); break
            else: out.append("%s 1" % o)                       # view, shrink
        return out

    def history(self):
        lo, hi = self.p["len"]
        if self.r.random() < self.p.get("wide", 0):
            return self.wide()
        out = []
        for s in range(1, self.p["nslot"] + 1):
            if self.r.random() > self.p["null"]:
                out.append(self.create(s))
        for _ in range(self.r.randint(lo, hi)):
            out.append(self.op())
            if self.r.random() < 0.05:
                out.append(self.create())
        return out

def histories(seed, n, prof=None, tag="g"):
    rng = random.Random(seed)
    g = Gen(rng, prof)
    return [("%s%d" % (tag, i), "b", g.history()) for i in range(n)]

def catgrid(seed):
    """strbuf_cat with every number of arguments its macro can count, the va_list form with more"""
    r = random.Random(seed)
    out = []
    for lo in range(1, 128, 8):
        h = [r.choice(["create 1 %d %d 0" % (r.choice([0, 7, 300]), r.choice([2, 3, 4])), "fixed 1 310 0 0"])]
        for n in range(lo, min(lo + 8, 128)):
            args = ["L %02x" % (33 + i % 90) for i in range(n)]
            if h[0][0] == "c" and r.random() < 0.3:
                args[-1] = "S 0 9"
            h.append("%s 1 %d %s" % (r.choice(["cat", "cat", "vcat"]), n, " ".join(args)))
        if lo % 16 == 1:
            n = r.choice([128, 129, 200, 255, 256, 257, 290])
            h.append("vcat 1 %d %s" % (n, " ".join("L %02x" % (33 + i % 90) for i in range(n))))
        out.append(("g%d" % lo, "b", h))
    return out
