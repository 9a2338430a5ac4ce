#!/usr/bin/env python3
"""writes spec/AesTab.tla: the tables of FIPS-197 (MC_Aes checks them against their algebraic definitions)"""
import os
def xt(a): a <<= 1; return (a ^ 0x11b) if a & 256 else a
def mul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = xt(a); b >>= 1
    return r
inv = [0] * 256
for a in range(1, 256):
    for b in range(1, 256):
        if mul(a, b) == 1: inv[a] = b
def aff(x):
    r = 0x63
    for k in range(5): r ^= ((x << k) | (x >> (8 - k))) & 255
    return r
S = [aff(inv[x]) for x in range(256)]
IS = [S.index(x) for x in range(256)]
tabs = {"S1": S, "S2": [mul(2, x) for x in S], "S3": [mul(3, x) for x in S], "IS": IS}
for k in (9, 11, 13, 14): tabs["M%d" % k] = [mul(k, x) for x in range(256)]
out = ["------------------------------- MODULE AesTab -------------------------------",
       "(* S-box (S1), its double and triple in GF(2^8), inverse S-box, multiples; *)",
       "(* written by tools/mkaes.py, checked against their definitions in MC_Aes. *)"]
for n, t in tabs.items():
    out.append("%s == <<" % n)
    for i in range(0, 256, 16):
        out.append("  " + ", ".join(map(str, t[i:i + 16])) + ("," if i < 240 else ">>"))
out.append("=" * 77)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "AesTab.tla"), "w").write("\n".join(out) + "\n")
