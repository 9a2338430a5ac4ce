"""Writes spec/FloatTab.tla: powers and limits as 32-digit decimal floats (checked against the arithmetic by MC_FloatTab)."""
from fractions import Fraction
import sys
sys.set_int_max_str_digits(30000)
def df(v):
    v = Fraction(v)
    x = 0
    while v >= 1:
        v /= 10000; x += 1
    while v * 10000 < 1:
        v *= 10000; x -= 1
    n = int(v * 10000 ** 8)
    l = []
    for _ in range(8):
        l.append(n % 10000); n //= 10000
    return "[l |-> <<%s>>, x |-> %d]" % (", ".join(map(str, l[::-1])), x)
out = ["------------------------------ MODULE FloatTab ------------------------------",
       "EXTENDS Integers, Sequences",
       "(* Generated by tools/mkfloat.py, checked by MC_FloatTab: limits of the formats *)",
       "(* and repeated squares, as 32-digit decimal floats (see StrNum).               *)"]
for b in (2, 5):
    out.append("Squares%d == <<" % b)
    out.append(",\n".join("  " + df(b ** (2 ** i)) for i in range(15)))
    out.append(">>")
F = {"float": (4, 2, -6, Fraction(1, 2 ** 126), (2 ** 24 - 1) * 2 ** 104), "double": (8, 1, -14, Fraction(1, 2 ** 1022), (2 ** 53 - 1) * 2 ** 971),
     "ldouble": (10, 5, -18, Fraction(1, 2 ** 16382), (2 ** 64 - 1) * 2 ** 16320)}
out.append("\\* w bytes; relative tolerance tk * 10^tp; least normal and largest finite magnitude; min * 1.001; max * 10^-5")
for n, (w, tk, tp, mn, mx) in F.items():
    out.append("Fmt_%s == [w |-> %d, tk |-> %d, tp |-> %d,\n  min |-> %s,\n  max |-> %s,\n  minhi |-> %s,\n  maxnear |-> %s]" %
               (n, w, tk, tp, df(mn), df(mx), df(mn * Fraction(1001, 1000)), df(Fraction(mx) / 100000)))
# the product of two limb sequences, unrolled (TLC evaluates recursion an order of magnitude slower)
out.append("\\* limbs of a product: 16 limbs; the first two are not both 0 unless a factor is 0")
out.append("LimbProduct(a, b) ==\n  LET")
for k in range(16, 1, -1):
    terms = ["a[%d]*b[%d]" % (i, k - i) for i in range(max(1, k - 8), min(8, k - 1) + 1)]
    out.append("    t%d == %s%s" % (k, " + ".join(terms), "" if k == 16 else " + t%d \\div 10000" % (k + 1)))
out.append("  IN <<t2 \\div 10000, %s>>" % ", ".join("t%d %% 10000" % k for k in range(2, 17)))
out.append("=" * 77)
open(__file__.replace("tools/mkfloat.py", "spec/FloatTab.tla"), "w").write("\n".join(out) + "\n")
