"""Seeded histories of calls on one buffer at the upper end of the int range (see harness/fam_huge.c).  The generator tracks
sizes only to keep the calls cheap: nothing that would move or copy gigabytes is called.  With profile "mid": around sizes
from 256 bytes to a gibibyte, where a dynamic buffer can still grow."""
import random
from gen_buf import hx
M = 2147483647

class Gen:
    def __init__(self, rng): self.r = rng
    def lit(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 15, 16, 17, 31, 40]) if n is None else n
        return hx(bytes(r.randrange(1, 256) for _ in range(n)))
    def history(self, enc=False):
        r = self.r
        out, size, kind = [], 0, None
        near = lambda: r.choice([0, 1, 2, 3, 5, 7, 8, 14, 15, 16, 17, 18, 20, 31, 32, 33, 40])
        kind = r.choice(["new", "new", "fix"])
        cap = M - near()
        out.append("%s m%d" % (kind, M - cap))
        if kind == "fix" and r.random() < 0.2:
            cap = M
            out = ["fix " + r.choice(["p1", "p2", "p5", "p1000", "p2147483647", "p2147483749", "p6442451044", "q"])]
        if enc:
            size = M - r.randint(0, 15)
            cap = max(cap, size)
            out = ["%s m%d" % (kind, M - cap), "claim m%d" % (M - size)]
            return out + ["enc", "view"]
        for _ in range(r.randint(2, 9)):
            if r.random() < 0.45 or size < M - 200:
                out.append("claim m%d" % (M - (cap - r.choice([0, 0, 1, 2, 5, 16])) if r.random() < 0.8 else near()))
                size = M - int(out[-1].split("m")[-1])
                if size > cap: size = 0
                if size < M - 200: continue
            k = r.random()
            src = lambda: r.choice(["L " + self.lit(), "L " + self.lit(), "E %d" % r.choice([0, 1, 2, 5, 8]), "N"])
            over = "B m%d" % r.choice([0, 1, 5, 100]) if r.random() < 0.5 else "W"
            if k < 0.2: out.append("append " + (src() if r.random() < 0.8 else over)); size += 0
            elif k < 0.3: out.append("insert %s %s" % (r.choice(["-1", "-2", "-8", "m0", "m20"]), src()))
            elif k < 0.38: out.append("%s %d %s" % (r.choice(["before", "after"]), r.choice([0, 1, 5, 8]), src()))
            elif k < 0.42: out.append("prepend " + over)
            elif k < 0.50: out.append("char %d" % r.randrange(1, 256))
            elif k < 0.62: out.append("%s %s" % (r.choice(["aprintf", "aprnf"]), hx(b"x" * r.choice([0, 1, 2, 9, 16, 17, 40]))))
            elif k < 0.65: out.append("%s %s" % (r.choice(["printf", "prnf"]), hx(b"y" * r.choice([0, 1, 2, 9, 16, 40])))); size = 0
            elif k < 0.72: out.append("cat 2 %s %s" % (over, r.choice([over, "W"])) if r.random() < 0.7 else "cat 3 W %s W" % src())
            elif k < 0.80: out.append("grow m%d" % near())
            elif k < 0.86: out.append("shrink")
            elif k < 0.93: out.append("assign " + r.choice(["L " + self.lit(), "E 5", "N"]))
            else: out.append("view")
            size = 0 if k > 0.86 and k < 0.93 else size
        return out

    def mid(self, fav=None):
        """around some size far below INT_MAX, where growing is possible: from far below it to a little above it"""
        r = self.r
        base = r.choice([256, 512, 1000, 1024, 2048, 4096, 8192, 1 << 15, 1 << 16, 1 << 16, 100000, 1 << 17, 1 << 20, 1 << 20, 1 << 22, 1 << 24, 1 << 27, 1 << 30])
        cheap = base <= 1 << 20 or (base <= 1 << 24 and r.random() < 0.1)
        near = lambda: max(0, base + r.choice([-40, -33, -32, -31, -17, -16, -15, -8, -2, -1, 0, 0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 40, 100]))
        where = lambda: near() if r.random() < 0.85 else r.choice([0, 1, 7, 15, 16, 17, base // 2, base + base // 2, 2 * base - 1, 2 * base if base < 1 << 30 else base])
        kind = r.choice(["new", "new", "fix"])
        self.cap, self.size = where(), 0             # a guess (for the default growth step): keeps the claims plausible
        out = ["%s %d" % (kind, self.cap)]
        def put(n):
            if n > self.cap:
                if kind == "fix": self.size = 0; return
                self.cap = n + -n % 16
            self.size = n
        def src(n=None):
            k = r.random()
            if k < 0.6: b = self.lit(n); m = 0 if b == "-" else len(b) // 2; return "L " + b, m
            if k < 0.7: b = self.lit(r.choice([63, 64, 65, 200])); return "L " + b, len(b) // 2
            if k < 0.75: return "N", 0
            if k < 0.85 and cheap: m = r.choice([base, near(), 70000, 140000, 256, 65536]); return "Z %d" % m, m
            m = r.choice([0, 1, 2, 5, 8])
            return "E %d" % m, min(m, self.size)
        for _ in range(r.randint(3, 10)):
            k = r.random()
            if self.size < 200 and self.cap > 200 and k > 0.2 and k < 0.9 and r.random() < 0.7: k = 0.1
            if fav and r.random() < 0.35: k = r.uniform(*r.choice(fav))
            x, m = src()
            if k < 0.2:
                n = max(self.size, r.choice([self.cap] * 4 + [self.cap - 1, self.cap - 2, self.cap - 7, self.cap - 16]))
                if r.random() < 0.25: n = r.randint(self.size, max(self.size, self.cap))
                if r.random() < 0.04: n = self.cap + 1
                out.append("claim %d" % n)
                self.size = n if n <= self.cap else 0
            elif k < 0.33: out.append("append " + x); put(self.size + m)
            elif k < 0.42: out.append("insert %s %s" % (r.choice(["-1", "-2", "-8", "m0", str(base), str(base - 1)]) if cheap else "-2", x)); put(self.size + m)
            elif k < 0.50: out.append("%s %d %s" % (r.choice(["before", "after"]), r.choice([0, 1, 5, 8]), x)); put(self.size + m)
            elif k < 0.53 and cheap:
                if r.random() < 0.7: out.append("prepend " + x); put(self.size + m)
                else: out.append("prepend W"); put(2 * self.size)
            elif k < 0.56 and cheap: out.append("append W"); put(2 * self.size)
            elif k < 0.63: out.append("char %d" % r.randrange(1, 256)); put(self.size + 1)
            elif k < 0.71:
                m = r.choice([0, 1, 2, 9, 16, 17, 40, 300])
                out.append("%s %s" % (r.choice(["aprintf", "aprnf"]), hx(b"x" * m))); put(self.size + m)
            elif k < 0.74:
                m = r.choice([0, 1, 2, 9, 16, 40, 300])
                out.append("%s %s" % (r.choice(["printf", "prnf"]), hx(b"y" * m))); put(m)
            elif k < 0.78 and cheap:
                f, n = r.choice([("cat 2 W W", 2 * self.size), ("cat 3 W %s W" % x, 2 * self.size + m), ("cat 2 %s W" % x, self.size + m), ("cat 1 W", self.size), ("cat 2 W " + x, self.size + m)])
                out.append(f); put(n)
            elif k < 0.80:
                more = [src() for _ in range(r.choice([1, 1, 2]))]
                out.append("cat %d %s %s" % (1 + len(more), x, " ".join(y for y, _ in more))); put(m + sum(n for _, n in more))
            elif k < 0.88:
                n = where() if r.random() < 0.5 else self.cap + r.choice([-1, 0, 1, 2, 15, 16, 17, 100])
                if n >= 0:
                    out.append("grow %d" % n)
                    if kind == "new": self.cap = max(self.cap, n)
            elif k < 0.94:
                out.append("shrink")
                if kind == "new": self.cap = self.size
            elif k < 0.97:
                if r.random() < 0.5: out.append("assign " + (x if x != "N" else "E 3")); put(m)
                else: out.append("assign " + r.choice(["N", "E 5", "W" if cheap else "E 1"])); self.size = min(self.size, 5) if out[-1][-1] != "W" else self.size
            else: out.append("view")
        return out

def histories(seed, n, prof=None, tag="h"):
    rng = random.Random(seed)
    prof = prof or {}
    return [("%s%d" % (tag, i), "h", Gen(rng).mid(prof.get("fav")) if prof.get("mid") else Gen(rng).history(bool(prof.get("enc")))) for i in range(n)]
