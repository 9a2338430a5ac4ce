"""Seeded generator of histories of the accessories: descriptor I/O, packing, encryption, mixed with buffer calls."""
import random
import gen_buf
from gen_buf import hx

TYPES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}
BUFOPS = ["append", "prepend", "assign", "strip", "char", "grow", "growr", "shrink", "destroy", "insert", "view"]

class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict({"fixed": 0.35, "null": 0.04, "long": 0.05, "w": {}}, **prof)
        self.b = gen_buf.Gen(rng, {"p": {"fixed": self.p["fixed"], "null": 0.04, "self": 0.2, "big": 0, "long": self.p["long"], "cs": 0},
                                   "only": BUFOPS})
        self.keys = [bytes(rng.randrange(256) for _ in range(32)) for _ in range(3)] + [bytes(32), bytes(range(32)), b"\xff" * 32]
        self.ivs = [bytes(rng.randrange(256) for _ in range(16)) for _ in range(2)] + [bytes(16)]

    def io(self):
        """the descriptor's answer: absolute, or relative to what is offered"""
        r = self.r.random()
        if r < 0.12: return "a -1"
        if r < 0.22: return "a 0"
        if r < 0.60: return "a %d" % self.r.choice([1, 1, 2, 3, 4, 7, 16, 50])
        return "r %d" % self.r.choice([0, 0, 0, -1, -1, -2, -3, -8])

    def iov(self):
        return "%s %d" % (self.io(), self.r.randint(0, 255))

    def val(self):
        k = self.r.random()
        if k < 0.4:
            v = self.r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
                               1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0x0102030405060708, 0xfedcba9876543210])
        elif k < 0.7:
            v = self.r.getrandbits(64)
        else:
            v = 0                                    # bytes of which few are set: shows every byte move
            for _ in range(self.r.randint(1, 2)):
                v |= self.r.randint(1, 255) << (8 * self.r.randrange(8))
        return v.to_bytes(8, "little")

    def packs(self, s, out):
        """packs and the unpacks that read them back"""
        seq = [(self.r.choice(list(TYPES)), self.r.choice("lb")) for _ in range(self.r.randint(1, 6))]
        for t, o in seq:
            out.append("pack %d %s %s %s" % (s, t, o, hx(self.val())))
        if self.r.random() < 0.8:
            out.append("vbuf %d" % s)
            for t, o in seq:
                if self.r.random() < 0.15:
                    t, o = self.r.choice(list(TYPES)), self.r.choice("lb")
                out.append("unpack %s %s" % (t, o))

    def length(self):
        r = self.r.random()
        if r < self.p["long"]:
            return self.r.choice([63, 64, 65, 79, 80, 81, 95, 96, 97, 112, 127, 128, 129])
        if r < 0.5:
            return self.r.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49])
        return self.r.randint(0, 50)

    def crypt(self, s, out):
        n = self.length()
        r = self.r
        d = self.b.data(n)
        k, v = r.choice(self.keys), r.choice(self.ivs)
        # a content of chosen length; on a fresh buffer of chosen room, or whatever the slot holds
        x = r.random()
        need = (n // 16 + 1) * 16
        if x < 0.35:
            out.append("fixed %d %d 0 0" % (s, max(1, r.choice([need + 1, need, need + 2, need + 17, n + 1, need + 33]))))
        elif x < 0.7:
            out.append("create %d %d %d 0" % (s, r.choice([0, n, need, need + 1, max(0, need - 1), 200]), r.choice([1, 2, 3, 4])))
            if r.random() < 0.3:
                out.append("shrink %d" % s)
        for _ in range(1):
            out.append("assign %d L %s" % (s, hx(d)))
            if r.random() < 0.2: out.append("shrink %d" % s)
        kv = lambda: "%s %s" % (hx(k), hx(v))
        m = r.random()
        if m < 0.5:
            out += ["enc %d %s" % (s, kv()), "dec %d %s" % (s, kv())]
            if r.random() < 0.3: out += ["enc %d %s" % (s, kv())]
        elif m < 0.65:
            out += ["enc %d %s" % (s, kv())] * 2 + ["dec %d %s" % (s, kv())] * 2
        elif m < 0.75:
            out += ["dec %d %s" % (s, kv())]
        else:
            out.append("enc %d %s" % (s, kv()))
            y = r.random()
            if y < 0.25:                    # damage
                out.append("poke %d %d %d" % (s, r.randint(0, 200), r.randint(1, 255)))
            elif y < 0.45:                  # damage the vector: the padding of a one-block message changes exactly
                i = r.choice([15, 15, 14, 0, r.randrange(16)])
                v = v[:i] + bytes([v[i] ^ r.choice([1, 2, 3, 16, 17, 255, r.randint(1, 255)])]) + v[i + 1:]
            elif y < 0.6:                   # a truncated ciphertext: wr drops the front, append adds to the end
                out.append(r.choice(["wr %d a %d 0" % (s, r.choice([1, 15, 16, 17, 32])), "char %d 7" % s, "append %d 0 L %s" % (s, hx(bytes(16)))]))
            elif y < 0.75:
                k = r.choice(self.keys)
            elif y < 0.9 and n >= 16:       # the padding byte that ends up in the last block: poke the block before it
                out.append("poke %d %d %d" % (s, r.choice([need - 17, need - 17, need - 18, need - 32, need - 17 - r.randrange(16)]), r.choice([1, 2, 3, 17, 16, 31, r.randint(1, 255)])))
            out.append("dec %d %s" % (s, kv()))
            if r.random() < 0.3: out.append("append %d 0 L 6162" % s)

    def big(self):
        """contents beyond what one or two bytes can count"""
        r = self.r
        n = r.choice([256, 257, 300, 1000, 32768, 32769, 33000, 65536, 65600] if r.random() < self.p.get("wide64", 0) else [255, 256, 257, 300, 512, 700])
        d = hx(bytes((i * 7 + i // 251) & 255 for i in range(n)))
        out = []
        if self.p["wide"] == "crypt":
            n = r.choice([4080, 4096, 4112, 4200]) if r.random() < self.p.get("wide64", 0) else r.choice([254, 255, 256, 257, 272, 300, 511, 512, 513])
            kv = "%s %s" % (hx(r.choice(self.keys)), hx(r.choice(self.ivs)))
            d = hx(bytes((i * 7 + i // 251) & 255 for i in range(n)))
            return [r.choice(["create 1 %d 2 0" % r.choice([0, n, n + 16]), "fixed 1 %d 0 0" % (n + 17)]), "assign 1 L " + d, "enc 1 " + kv, "dec 1 " + kv]
        for _ in range(2):
            k = r.random()
            if k < 0.4 and self.p.get("wide") != "pack":
                out += ["vset " + d] + ["vw 0 %s %d" % (r.choice(["a 1", "a 3", "a 300", "a %d" % (n // 2), "r -1", "r -3", "r 0"]), r.randint(0, 255)) for _ in range(2 if n > 2000 else 4)]
            elif k < 0.8 and self.p.get("wide") != "pack":
                out += ["create 1 %d %d 0" % (r.choice([n, n + 5, 2 * n]), r.choice([1, 2, 4])) if r.random() < 0.7 else "fixed 1 %d 0 0" % (n + r.randint(30, 99)), "assign 1 L " + d]
                out += ["%s 1 %s %d" % (r.choice(["rd", "wr", "wr"]), r.choice(["a 1", "a 3", "a 300", "r -1", "r -2", "r 0"]), r.randint(0, 255)) for _ in range(2 if n > 2000 else 4)] + ["destroy 1"]
            else:
                out += ["vset " + d] + ["unpack %s %s" % (r.choice(list(TYPES)), r.choice("lb")) for _ in range(3)]
                out += ["init 2 2 0 L " + d] + ["pack 2 %s %s %s" % (r.choice(list(TYPES)), r.choice("lb"), hx(self.val())) for _ in range(2)] + ["destroy 2"]
        return out

    def history(self):
        if self.p.get("wide"):
            return self.big()
        out = []
        for s in (1, 2):
            if self.r.random() > self.p["null"] * 2:
                out.append(self.b.create(s))
        kinds = ["io", "pack", "crypt", "buf", "view"]
        w = dict({"io": 3, "pack": 1, "crypt": 1, "buf": 2, "view": 1}, **self.p["w"])
        for _ in range(self.r.randint(3, 10)):
            k = self.r.choices(kinds, [w[x] for x in kinds])[0]
            s = 0 if self.r.random() < self.p["null"] else self.r.randint(1, 2)
            if k == "io":
                for _ in range(self.r.randint(1, 4)):
                    out.append("%s %d %s" % (self.r.choice(["rd", "rd", "wr"]), s, self.iov()))
                if self.r.random() < 0.3: out.append("growr %d %d" % (s, self.r.choice([1, 4, 16])))
            elif k == "pack":
                self.packs(s, out)
            elif k == "crypt":
                self.crypt(s or 1, out) if self.r.random() < 0.97 else out.append("%s 0 %s %s" % (self.r.choice(["enc", "dec"]), hx(self.keys[0]), hx(self.ivs[0])))
            elif k == "buf":
                out.append(self.b.op())
            else:
                x = self.r.random()
                out.append("vset " + hx(self.b.data()) if x < 0.6 else "vbuf %d" % s if x < 0.9 else "vinv")
                for _ in range(self.r.randint(1, 5)):
                    y = self.r.random()
                    out.append("vw %d %s" % (1 if y < 0.05 else 0, self.iov()) if y < 0.7 else
                               "unpack %s %s" % (self.r.choice(list(TYPES)), self.r.choice("lb")))
        return out

def histories(seed, n, prof=None, tag="g"):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        out.append(("%s%d" % (tag, i), "a", Gen(rng, prof or {}).history()))
    return out

def far(seed, tag="f", most=1 << 20):
    """texts whose number of bytes or blocks is beyond small counters, encrypted and decrypted as a whole"""
    r = random.Random(seed); out = []
    for n in [0, 1, 15, 16, 17, 255, 2032, 2047, 2048, 4064, 4079, 4080, 4095, 4096, 4112, 32752, 32767, 32768, 65519, 65520, 65535, 65536, 65537, 524288, 1048559, 1048560, 1048576, 1048577, 1048600]:
        if n > most + 100: continue
        rb = lambda k: hx(bytes(r.randrange(256) for _ in range(k)))
        out.append(("%s%d" % (tag, len(out)), "a", ["long %d %d %d %d %s %s" % (r.randint(0, 1), n, r.choice([0, 1, 7, 31, 101]), r.choice([0, 1, 2, 16, 128, 255]), rb(32), rb(16))]))
    return out
