"""Seeded generator of call histories on views (family v)."""
import random

def hx(b):
    return bytes(b).hex() if len(b) else "-"

# calls which leave their source as it is, and where they name it
PURE = {"find": 2, "trim": 2, "match": 2, "starts": 2, "contains": 2, "cmp": 1, "dequote": 1, "tocstr": 1, "sub": 1}

class Gen:
    """prof: dict(w=weights of operations, txt=weights of text kinds, len=calls per history)"""
    def __init__(self, rng, prof=None):
        self.r = rng
        self.w = {"first": 5, "last": 5, "all": 3, "splitidx": 4, "pop": 2, "line": 4, "left": 4, "right": 4, "sub": 6,
                  "trim": 5, "find": 8, "match": 4, "starts": 4, "contains": 2, "cmp": 4, "dequote": 3, "tocstr": 3,
                  "stream": 1, "mem": 4, "cstr": 1, "sl": 1, "cstrnull": 0.3, "inv": 0.7, "copy": 2, "raw": 4, "swap": 1.5,
                  "valid": 0.7, "seteol": 1}
        self.long = 0.03
        self.len = (6, 16)
        self.wide64 = prof.get("wide") if prof else None
        self.h = prof.get("huge") if prof else None
        if prof:
            self.w.update(prof.get("w", {}))
            if "only" in prof:
                base = {"mem", "cstr", "sl", "inv", "copy", "raw"}
                self.w = {k: v for k, v in self.w.items() if k in prof["only"] or k in base}
            self.long = prof.get("long", self.long)
            self.len = prof.get("len", self.len)
        self.ops = list(self.w); self.ws = [self.w[k] for k in self.ops]

    def text(self, n=None):
        r = self.r
        if n is None:
            x = r.random()
            n = 0 if x < 0.08 else r.randint(1, 4) if x < 0.4 else r.randint(3, 14) if x < 1 - self.long else \
                r.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, r.randint(40, 600)])
        k = r.random()
        al = (b"ab", b"aAbB", b",;ab\"", b"\r\na", b" .aA\"'", bytes(range(256)), b"\0a\xff\xe9\xc9", b"@`[{azAZ", b"0123456789")[r.randrange(9)]
        if r.random() < 0.25:                  # any few characters together
            al = bytes(r.choice([r.randrange(33, 127), r.randrange(256), 34, 92, 44, 10]) for _ in range(r.randint(2, 5)))
        b = bytes(r.choice(al) for _ in range(n))
        if k < 0.08 and n >= 2:
            q = r.choice([b'"', b"'"])
            d = r.randint(1, max(1, n // 2))
            b = (q * d + b + q * r.choice([d, d, d, max(0, d - 1)]))
        return b

    def related(self, t):
        """a text related to t: a piece of it, with a changed case or byte, extended..."""
        r = self.r
        if not t:
            return self.text(r.randint(0, 2))
        o = r.randrange(len(t)); n = r.randint(0, min(len(t) - o, r.choice([1, 2, 3, 5, 600])))
        p = bytearray(t[o:o + n])
        k = r.random()
        if k < 0.25 and p:
            i = r.randrange(len(p)); p[i] ^= r.choice([0x20, 0x20, 1, 0x80])
        elif k < 0.35:
            p = bytearray(t)
        elif k < 0.45:
            p = bytearray(t) + self.text(1)
        elif k < 0.5:
            p = bytearray(t).swapcase()
        elif k < 0.55:
            p = bytearray(t[:-1])
        return bytes(p)

    def s(self):
        return self.r.randint(1, 6)

    def arg(self, reg=True, cstr=True):
        r = self.r; k = r.random()
        if k < 0.04:
            return r.choice(["N", "c"]) if cstr else "N"
        if reg and k < 0.35:
            return "R %d" % self.s()
        t = self.related(self.last) if r.random() < 0.7 else self.text()
        if cstr and r.random() < 0.4:
            return "C " + hx(t)
        return "L " + hx(t)

    def delims(self, xq):
        r = self.r; k = r.random()
        if k < 0.03:
            return "c"
        if k < 0.1:
            return "C -"
        d = bytes(r.choice(b",;ab \r\n.") for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
        if r.random() < 0.35:
            d = bytes(self.r.choice([x for x in (self.last or b"x")]) for _ in range(r.randint(1, 2)))
        if r.random() < 0.05:
            d += bytes([r.choice([255, 128, 200])])
        d = bytes(c for c in d if c != 0 and not (xq and c == 34))
        return "C " + hx(d)

    def idx(self):
        r = self.r; k = r.random()
        if k < 0.08:
            return r.choice([2147483647, -2147483648, 2147483646, -2147483647])
        if k < 0.7:
            return r.randint(-5, 6)
        return r.randint(-20, 20)

    def mem(self, d=None):
        d = d or self.s()
        t = self.related(self.last) if self.r.random() < 0.35 else self.text()
        self.last = t
        return "mem %d %s" % (d, hx(t))

    def nul(self):
        return 0 if self.r.random() < 0.03 else self.s()

    def op(self):
        r = self.r
        o = r.choices(self.ops, self.ws)[0]
        s, d = self.s(), self.s()
        if o == "mem":
            return self.mem()
        if o == "cstr":
            self.last = self.text()
            return "cstr %d %s" % (d, hx(self.last))
        if o == "sl":
            return "sl %d %d" % (d, r.randint(0, 4))
        if o in ("cstrnull", "inv"):
            return "%s %d" % (o, d)
        if o == "copy":
            return "copy %d %d" % (d, s)
        if o == "raw":
            return "raw %d %d %d %d" % (d, s, r.randint(0, 12), r.randint(0, 12))
        if o == "swap":
            return "swap %d %d" % (s, d)
        if o == "valid":
            return "valid %d" % s
        if o == "seteol":
            return "seteol %d %d" % (r.randint(1, 2), r.choice([0, 10, 13, 13, 10]))
        if o in ("first", "last"):
            # with quote exclusion the text must have balanced quotes for `last' to be well defined
            xq = r.randint(0, 1)
            if xq:
                t = self.qtext()
                self.pend = "%s %d %d 1 %s" % (o, d, self.s(), self.delims(1))
                return "mem %d %s" % (d, hx(t))
            return "%s %d %d 0 %s" % (o, self.nul(), d, self.delims(0))
        if o == "all":
            xq = r.randint(0, 1)
            n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 8, 40])
            if xq:
                t = self.qtext()
                self.pend = "all %d %d 1 %s" % (d, n, self.delims(1))
                return "mem %d %s" % (d, hx(t))
            return "all %d %d 0 %s" % (s, n, self.delims(0))
        if o == "splitidx":
            return "splitidx %d %d %d" % (self.nul(), d, self.idx())
        if o == "pop":
            return "pop %d" % self.nul()
        if o == "line":
            return "line %d %d %d" % (self.nul(), d, r.choice([0, 1, 1, 2]))
        if o in ("left", "right"):
            k = r.random()
            if k < 0.6:
                t = self.s()
                self.pend = "%s %d %d R %d" % (o, s, d, t)
                return "raw %d %d %d %d" % (t, s, r.randint(0, 12), r.randint(0, 12))
            return "%s %d %d %s" % (o, self.nul(), d, self.r.choice(["R %d" % self.s(), "R %d" % self.s(), "L " + hx(self.text()), "N"]))
        if o == "sub":
            return "sub %d %d %d %d" % (s, d, self.idx(), self.idx())
        if o == "trim":
            return "trim %d %d %d %d %s" % (r.randint(0, 2), s, d, r.randint(0, 2), self.arg())
        if o == "find":
            return "find %d %d %d %d %s" % (r.randint(0, 3), s, d, r.randint(0, 2), self.arg())
        if o in ("match", "starts"):
            return "%s %d %d %d %s" % (o, r.randint(0, 1), s, r.randint(0, 2), self.arg())
        if o == "contains":
            return "contains %d %d %s" % (r.randint(0, 1), s, self.arg(cstr=False))
        if o == "cmp":
            return "cmp %d %s" % (s, self.arg(cstr=False))
        if o == "dequote":
            return "dequote %d %d" % (s, d)
        if o == "tocstr":
            return "tocstr %d %d %d" % (s, r.choice([0, 1, 2, 3, 4, 8, 16, 17, r.randint(0, 40)]), 1 if r.random() < 0.04 else 0)
        if o == "stream":
            return self.stream()
        raise AssertionError(o)

    def qtext(self):
        """a text with balanced quotes"""
        r = self.r
        out = b""
        if r.random() < 0.12:                  # many fields
            d = r.choice([b",", b";", b" "])
            return d.join(b'"' + r.choice([b"", b"a", b"a,b", b";", b", ;"]) + b'"' if r.random() < 0.4 else r.choice([b"", b"a", b"bb"]) for _ in range(r.randint(6, 45)))
        for _ in range(r.randint(0, 6)):
            out += bytes(r.choice(b",;ab \r\n.\\'`/") for _ in range(r.randint(0, 4)))
            if r.random() < 0.5:
                out += b'"' + bytes(r.choice(b",;ab '\n\\/\0\xff") for _ in range(r.randint(0, 4))) + b'"'
        return out

    def stream(self):
        r = self.r
        t = bytes(r.choice(r.choice([b"\r\na", b"\r\n", b"\r\nabc", b"\nab", b"\r\n\0\xff"])) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 30])))
        if r.random() < 0.4:
            t = b"".join(bytes(r.choice(b"ab") for _ in range(r.randint(0, 4))) + r.choice([b"\r\n", b"\n\r", b"\r", b"\n"]) for _ in range(r.randint(0, 8)))
            t += bytes(r.choice(b"ab\r\n") for _ in range(r.randint(0, 2)))
        ch, i = [], 0
        m = r.choice([1, 2, 3, 10])
        while i < len(t):
            n = r.randint(0 if r.random() < 0.2 else 1, m)
            ch.append(t[i:i + n]); i += n
        ch = ch[:170]
        return "stream %d %d %s" % (r.randint(0, 2), len(ch), " ".join(hx(c) for c in ch))

    def huge(self):
        """index arithmetic at the upper end of the int range"""
        r = self.r; M = 2147483647
        out = []
        for _ in range(20):
            n = M - r.choice([0, 0, 1, 2, 5, 100, 65536]) if r.random() < 0.8 else r.choice([65535, 65536, 65537, 1 << 24, 1 << 30, 1 << 31]) - 1
            x = lambda: r.choice([0, 1, 2, -1, -2, n - 1, n, min(n + 1, M), -n, -(n - 1), 1 - n, -M, -M - 1, M, 65536, -65537, 32768, 1 << 30, r.randint(-M, M)])
            o = r.choice(["hsub", "hsub", "hsplit", "hleft", "hright"])
            i, j = x(), x()
            if o in ("hleft", "hright"):
                i = r.choice([-1, -5, 0, 1, 70000, n // 2, n - 1, n, min(n + 1, M), n - 100])
                j = r.choice([0, 0, 1, 5, 100, n]) if i <= 0 else r.choice([0, 0, 1, min(M - i, 100), min(5, M - i)])
                j = min(j, M - max(i, 0))
            out.append("%s %d %d %d" % (o, n, i, j))
        return out

    def wide(self):
        """texts longer than what one or two bytes can count"""
        r = self.r
        big = r.random() < self.wide64
        n = r.choice([65536, 65537, 66000]) if big else r.choice([255, 256, 257, 258, 300, 511, 512, 513, r.randint(260, 1500)])
        k = r.randint(0, 9); al = r.choice([b"ab", b"abcdefg", bytes(range(97, 123)), b"aAbB"])
        t = bytearray(al[(i * 7 + i // 251 + k) % len(al)] for i in range(n))
        if r.random() < 0.3: t = bytearray(al[:1] * n)
        for _ in range(r.choice([0, 1, 1, 2, 5])):
            t[r.choice([0, n - 1, n // 2, r.randrange(n), min(n - 1, 256), n - 257 if n > 257 else 0])] = r.choice(b",;\n\r\"X\0")
        t = bytes(t)
        out = ["mem 1 " + hx(t)]
        ops = [o for o in ("find", "find", "first", "last", "all", "line", "sub", "splitidx", "left", "right", "trim", "match", "starts", "cmp", "contains", "tocstr", "dequote") if o in self.w]
        far = lambda: r.choice([r.randrange(n), n - 1, n, n - 2, 255, 256, 257, -n, -255, -256, -257, 1])
        for _ in range(2 if big else 4):
            o = r.choice(ops)
            p = bytearray(t)
            if r.random() < 0.6 or big and o in ("find", "contains"): a = r.choice([0, 1, n // 3]); p = p[a:a + r.choice([256, 257, 300, 1, 2, 3] if not big else [1, 2, 3])]
            elif r.random() < 0.5: p = p[:r.choice([255, 256, 257, n - 1])]
            if r.random() < 0.5 and p: p[-1] ^= r.choice([1, 32, 128])
            L = "L " + hx(bytes(p))
            out.append("copy 2 1")
            out.append({"find": "find %d 1 3 0 %s" % (r.randint(0, 3), L), "contains": "contains %d 1 %s" % (r.randint(0, 1), L),
                        "first": "first 2 3 %d C 2c3b" % (0 if big else r.randint(0, 1)), "last": "last 2 3 0 C 2c3b", "all": "all 1 %d 0 C 2c3b61" % r.choice([2, 300]) if not big else "all 1 3 0 C 2c3b",
                        "line": "line 2 3 1", "sub": "sub 1 3 %d %d" % (far(), far()), "splitidx": "splitidx 2 3 %d" % far(),
                        "trim": "trim %d 1 3 0 L %s" % (r.randint(0, 2), hx(bytes(set(al)) if r.random() < 0.7 else al[:1])),
                        "match": "match %d 1 1 %s" % (r.randint(0, 1), L), "starts": "starts %d 1 1 %s" % (r.randint(0, 1), L), "cmp": "cmp 1 " + L,
                        "tocstr": "tocstr 1 %d 0" % r.choice([255, 256, 257, n, n + 1, n + 2, n - 1]), "dequote": "dequote 1 3"}.get(o)
                       or "raw 4 1 %d %d" % (r.randrange(n), r.choice([0, 1, 300])))
            if o in ("left", "right"): out.append("%s 2 3 R 4" % o)
        return out

    def history(self):
        if self.wide64 is not None: return self.wide()
        if self.h: return self.huge()
        self.last = b""; self.pend = None
        out = [self.mem(d) for d in range(1, self.r.randint(3, 7))]
        n = self.r.randint(*self.len)
        while len(out) < n + 5:
            self.pend = None
            out.append(self.op())
            if self.pend:
                out.append(self.pend)
            # the same call again after the text has changed in place
            t = out[-1].split()
            if t[0] in PURE and self.r.random() < 0.12:
                s = int(t[PURE[t[0]]])
                for _ in range(self.r.choice([1, 1, 2])):
                    d = int(t[-1]) if t[-2] == "R" and self.r.random() < 0.4 else s
                    out.append("wr %d %d %d" % (d, self.r.randint(0, 400), self.r.choice(self.last) if self.last and self.r.random() < 0.6 else self.r.choice(b'ab,;"\r\n .\0')))
                if t[0] in ("find", "trim", "sub", "dequote") and int(t[PURE[t[0]] + 1]) == s:
                    continue                       # the source was replaced by the result
                out.append(out[-1 - (out[-1].startswith("wr") + out[-2].startswith("wr"))])
        return out

def histories(seed, n, prof=None, tag="v"):
    g = Gen(random.Random(seed), prof)
    return [("%s%d" % (tag, i), "v", g.history()) for i in range(n)]

def far(seed, only, tag="f", sizes=(255, 256, 257, 32767, 32768, 65535, 65536, 65537)):
    """texts which agree, or hold nothing of interest, up to a place which one or two bytes cannot count; the place is moved by writing to the text"""
    r = random.Random(seed); out = []
    def add(lines): out.append(("%s%d" % (tag, len(out)), "v", lines))
    for n in sizes:
        big = n > 300
        k = r.randint(0, 9)
        t = bytes(b"abcdefgXYZ"[(i * 7 + i // 251 + k) % 10] for i in range(n + 1))
        places = [n - 1, 0, n - 256 if n > 256 else n // 2] + ([] if big else [n // 3, n - 2])
        eq = [o for o in ("match", "starts", "cmp") if only is None or o in only]
        if eq:
            m = bytes(c ^ 32 if r.random() < 0.3 else c for c in t[:n])
            for fold, u in ((0, t[:n]), (1, m)):
                h = ["mem 1 " + hx(t), "mem 2 " + hx(u), "raw 3 1 0 %d" % n]
                for d in [None] + places:
                    if d is not None: h.append("wr 2 %d %d" % (d, u[d] ^ 1))
                    h += [o + (" 3" if o == "cmp" else " %d %d 0" % (fold, r.choice([1, 3]) if o == "starts" else 3)) + " R 2" for o in eq]
                    if d is not None: h.append("wr 2 %d %d" % (d, u[d]))
                add(h)
        if only is None or "find" in only:
            h = ["mem 1 " + hx(b"q" + t + b"q"), "mem 2 " + hx(t)]
            for d in [None] + places[:2]:
                if d is not None: h.append("wr 2 %d %d" % (d, t[d] ^ 1))
                h += ["find %d 1 3 0 R 2" % f for f in range(4)] + ["contains %d 1 R 2" % r.randint(0, 1)]
                if d is not None: h.append("wr 2 %d %d" % (d, t[d]))
            if big:
                h.append("find %d 1 3 0 L 7171" % r.randint(0, 3)); h.append("wr 1 %d 113" % (n - 3)); h.append("wr 1 %d 113" % (n - 2))
                h += ["find 0 1 3 0 L 7171", "find 2 1 3 0 L 7171", "contains 0 1 L 7171"]
            add(h)
        if only is None or "trim" in only:
            add(["mem 1 " + hx(b"0" * n + b"x" + b"0" * n), "trim 0 1 2 0 L 30", "trim 1 1 2 1 C 30", "trim 2 1 2 2 C 30", "wr 1 %d 48" % n, "trim %d 1 2 0 L 3130" % r.randint(0, 2)])
        if only is None or "dequote" in only:
            add(["mem 1 " + hx(b'"' * (min(n, 300) + 3)), "dequote 1 2", "wr 1 %d 97" % (min(n, 300) // 2 + 1), "dequote 1 2", "mem 1 " + hx(b"'" + t + b"'"), "dequote 1 2"])
        if only is None or "first" in only:
            h = ["mem 1 " + hx(t)]
            for d in places[:3]:
                h += ["wr 1 %d 44" % d, "copy 2 1", "first 2 3 0 C 3b2c", "copy 2 1", "last 2 3 0 C 2c", "all 1 3 0 C 2c", "wr 1 %d %d" % (d, t[d])]
            add(h)
            add(["mem 1 " + hx(b"," * min(n, 300)), "all 1 %d 0 C 2c" % r.choice([n if n < 300 else 310, 400])])
        if only is None or "line" in only:
            h = ["mem 1 " + hx(t)]
            for d in places[:3]:
                h += ["wr 1 %d %d" % (d, r.choice([10, 13])), "wr 1 %d %d" % (d + 1, r.choice([10, 13])), "copy 2 1", "line 2 3 1", "wr 1 %d %d" % (d, t[d]), "wr 1 %d %d" % (d + 1, t[d + 1])]
            add(h)
        if only is None or "tocstr" in only:
            add(["mem 1 " + hx(t[:n])] + ["tocstr 1 %d 0" % x for x in (n, n + 1, n - 1)])
        if only is None or "sub" in only:
            h = ["mem 1 " + hx(t[:n])]
            for _ in range(6):
                a, b = r.choice([0, 1, n - 1, n, -n, 256, 255, -256, 1 - n]), r.choice([n, n - 1, -1, 2147483647, 256, 257, n // 2])
                h += ["sub 1 3 %d %d" % (a, b), "copy 2 1", "splitidx 2 3 %d" % a, "raw 4 1 %d %d" % (r.choice([n - 1, n, 255, n // 2]) % (n + 1), r.choice([0, 1, 5])), "copy 2 1", "%s 2 3 R 4" % r.choice(["left", "right"])]
            add(h)
    return out

def pairs(seed, only, tag="p"):
    """every byte value against the same byte with one bit changed, at any place of texts of any small length"""
    r = random.Random(seed); out = []
    wants = lambda o: only is None or o in only
    def add(lines): out.append(("%s%d" % (tag, len(out)), "v", lines))
    eq = [o for o in ("match", "starts", "cmp") if wants(o)]
    for n in [1, 4, 8, r.choice([2, 3, 5, 6]), r.choice([7, 9, 12, 15, 16, 17, 31, 32, 33])]:
        t = bytes(r.choice(b"aZ@`[{0\x00\xc1\xe1_\x7f") for _ in range(n))
        for lo in range(0, 256, 64):
            if eq:
                h = ["mem 1 " + hx(t), "mem 2 " + hx(t)]
                for x in range(lo, lo + 64):
                    p = r.randrange(n)
                    for y in (x ^ 32, x ^ r.choice([0, 1, 2, 4, 8, 16, 64, 128])) if n == 4 or r.random() < 0.5 else (x ^ 32,):
                        h += ["wr 1 %d %d" % (p, x), "wr 2 %d %d" % (p, y)]
                        h += ["cmp 1 R 2" if o == "cmp" else "%s 1 1 0 R 2" % o for o in eq]
                        if r.random() < 0.3: h += ["%s 0 1 0 R 2" % o for o in eq if o != "cmp"]
                    h += ["wr 1 %d %d" % (p, t[p]), "wr 2 %d %d" % (p, t[p])]
                add(h)
            if wants("find"):
                h = ["mem 1 " + hx(b"a" + t + b"Z"), "mem 2 " + hx(t)]
                for x in range(lo, lo + 64):
                    p = r.randrange(n)
                    h += ["wr 1 %d %d" % (p + 1, x), "wr 2 %d %d" % (p, x ^ 32), "find %d 1 3 0 R 2" % r.choice([1, 3])]
                    if r.random() < 0.3: h += ["find %d 1 3 0 R 2" % r.choice([0, 2]), "contains 1 1 R 2"]
                    h += ["wr 1 %d %d" % (p + 1, t[p]), "wr 2 %d %d" % (p, t[p])]
                add(h)
    for lo in range(0, 256, 64):
        if wants("first") or wants("trim"):
            h = ["mem 1 " + hx(b"abcdef")]
            for x in range(lo, lo + 64):
                y = x ^ r.choice([0, 0, 0, 1, 32, 64, 128])
                if wants("first") and y:              # the delimiters are a C string
                    h += ["wr 1 %d %d" % (r.choice([1, 2, 3]), x), "copy 2 1", "%s 2 3 %d C %s" % (r.choice(["first", "last"]), r.choice([0, 0, 1]) if y != 34 else 0, hx(r.choice([bytes([y]), bytes([y, 200, 7])]))), "wr 1 1 98", "wr 1 2 99", "wr 1 3 100"]
                if wants("trim"):
                    h += ["wr 1 0 %d" % x, "wr 1 5 %d" % x, "trim %d 1 2 %d L %s" % (r.randint(0, 2), r.choice([0, 2]), hx(r.choice([bytes([y]), bytes([y, 200, 7])])))]
            add(h)
        if wants("tocstr"):
            h = ["mem 1 " + hx(b"abcdef")]
            for x in range(lo, lo + 64): h += ["wr 1 %d %d" % (r.randrange(6), x), "tocstr 1 %d 0" % r.choice([3, 6, 7, 8])]
            add(h)
            if lo == 0: add(["mem 1 " + hx(b"abc\0def")] + ["bigcstr 1 %d" % k for k in range(7)] + ["bigcstr 2 %d" % r.randint(0, 6)])
        if wants("dequote") or wants("line"):
            h = ["mem 1 " + hx(b"abcdef")]
            for x in range(lo, lo + 64):
                if wants("dequote"): h += ["wr 1 0 %d" % x, "wr 1 5 %d" % x, "dequote 1 2"]
                if wants("line"): h += ["wr 1 3 %d" % x, "copy 2 1", "line 2 3 1"]
            add(h)
    return out
