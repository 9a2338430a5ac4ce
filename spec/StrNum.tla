------------------------------- MODULE StrNum -------------------------------
(***************************************************************************)
(* Number conversion (strnum.h): the syntax each option set accepts, the   *)
(* exact value of integer texts as little-endian byte magnitudes, and the  *)
(* value of decimal and binary floating-point numbers as 32-digit decimal  *)
(* floats, so that TLC's 32-bit integers suffice for 64-bit integers and   *)
(* 80-bit floats.                                                          *)
(***************************************************************************)
EXTENDS Bytes, FloatTab

\* ------------------------------------------------------------------ options
Has(o, bit) == (o \div bit) % 2 = 1
OBin(o) == Has(o, 1)   OHex(o) == Has(o, 2)   ONoPrefix(o) == Has(o, 4)
ONoSign(o) == Has(o, 8)   ONoSpace(o) == Has(o, 16)   ONoExp(o) == Has(o, 32)

\* ------------------------------------------------------------------- scanning
DecDigits == 48..57
HexDigits == 48..57 \cup 65..70 \cup 97..102
BinDigits == {48, 49}
DigitsOf(base) == IF base = 16 THEN HexDigits ELSE IF base = 2 THEN BinDigits ELSE DecDigits

\* offset of the first byte at or after o which is not in C
Span(b, o, C) == IF o >= Len(b) THEN o
                 ELSE CHOOSE i \in o..Len(b) : (i = Len(b) \/ b[i+1] \notin C) /\ \A j \in o..(i-1) : b[j+1] \in C

Is(b, o, c) == o < Len(b) /\ b[o+1] = c
IsAny(b, o, C) == o < Len(b) /\ b[o+1] \in C
\* is the word w (upper case) at offset o in any case
Word(b, o, w) == o + Len(w) <= Len(b) /\ UpperSeq(Cut(b, o, Len(w))) = w

AfterSpace(b, o) == IF ONoSpace(o) THEN 0 ELSE Span(b, 0, {32})

\* ---------------------------------------------------------------- integer text
(* [ok, neg, base, d, e]: digits are at [d, e), e is what is consumed *)
IntText(b, o, signed) ==
  LET s == AfterSpace(b, o)
      sg == signed /\ ~ONoSign(o) /\ IsAny(b, s, {43, 45})
      p == IF sg THEN s + 1 ELSE s
      pre(c) == ~ONoPrefix(o) /\ Is(b, p, 48) /\ IsAny(b, p + 1, c)
      pb == ~OHex(o) /\ pre({66, 98})
      px == ~OBin(o) /\ pre({88, 120})
      base == IF pb THEN 2 ELSE IF px THEN 16 ELSE IF OBin(o) THEN 2 ELSE IF OHex(o) THEN 16 ELSE 10
      d == IF pb \/ px THEN p + 2 ELSE p
      e == Span(b, d, DigitsOf(base))
  IN [ok |-> e > d, neg |-> sg /\ Is(b, s, 45), base |-> base, d |-> d, e |-> e]

DigitVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

\* ------------------------------------------- magnitudes: NB little-endian bytes
NB == 8
Zeros(n) == [i \in 1..n |-> 0]
\* m * k + a as NB bytes, and the carry out
RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(m, k, carry, i, acc) ==
  IF i > Len(m) THEN [m |-> acc, c |-> carry]
  ELSE LET t == m[i] * k + carry IN MulAddFrom(m, k, t \div 256, i + 1, Append(acc, t % 256))
MulAdd(m, k, a) == MulAddFrom(m, k, a, 1, <<>>)

RECURSIVE Horner(_, _, _, _, _)
Horner(b, i, e, base, m) ==
  IF i >= e THEN [over |-> FALSE, m |-> m]
  ELSE LET r == MulAdd(m, base, DigitVal(b[i+1])) IN
       IF r.c # 0 THEN [over |-> TRUE, m |-> Zeros(NB)] ELSE Horner(b, i + 1, e, base, r.m)
\* the magnitude of the digits at [d, e) in the given base
Magnitude(b, d, e, base) ==
  LET z == Span(b, d, {48})
      f == IF z > e THEN e ELSE z
  IN IF e - f > 64 THEN [over |-> TRUE, m |-> Zeros(NB)] ELSE Horner(b, f, e, base, Zeros(NB))

RECURSIVE CmpMagFrom(_, _, _)
CmpMagFrom(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE CmpMagFrom(x, y, i - 1)
CmpMag(x, y) == CmpMagFrom(x, y, NB)

MaxUnsigned(w) == [i \in 1..NB |-> IF i <= w THEN 255 ELSE 0]
MaxSigned(w)   == [i \in 1..NB |-> IF i < w THEN 255 ELSE IF i = w THEN 127 ELSE 0]
MaxNegative(w) == [i \in 1..NB |-> IF i = w THEN 128 ELSE 0]
Fits(m, neg, w, signed) ==
  CmpMag(m, IF ~signed THEN MaxUnsigned(w) ELSE IF neg THEN MaxNegative(w) ELSE MaxSigned(w)) <= 0

\* two's complement bytes of a magnitude in w bytes
RECURSIVE NegFrom(_, _, _, _)
NegFrom(m, w, i, carry) == IF i > w THEN <<>> ELSE LET t == (255 - m[i]) + carry IN <<t % 256>> \o NegFrom(m, w, i + 1, t \div 256)
Stored(m, neg, w) == IF neg THEN NegFrom(m, w, 1, 1) ELSE [i \in 1..w |-> m[i]]

(* What converting text b to a w-byte integer does: e is 0, or the error     *)
(* (1 invalid, 2 out of range); n bytes consumed, D stored.                  *)
IntConv(b, o, w, signed) ==
  LET t == IntText(b, o, signed) IN
  IF ~t.ok THEN [e |-> 1, n |-> 0, D |-> <<>>]
  ELSE LET v == Magnitude(b, t.d, t.e, t.base) IN
       IF v.over \/ ~Fits(v.m, t.neg, w, signed) THEN [e |-> 2, n |-> t.e, D |-> <<>>]
       ELSE [e |-> 0, n |-> t.e, D |-> Stored(v.m, t.neg, w)]

\* -------------------------------------------------------------- float text
INFINITYw == <<73, 78, 70, 73, 78, 73, 84, 89>>
INFw == <<73, 78, 70>>
NANw == <<78, 65, 78>>

(* [ok, neg, k, id, ie, fd, fe, e, x]: k "inf", "nan" or "dec"; integral      *)
(* digits [id, ie), fractional digits [fd, fe), e consumed; x the exponent    *)
(* as IntConv gives it for an int (e = 1: there is none).                     *)
FloatText(b, o) ==
  LET s == AfterSpace(b, o)
      sg == ~ONoSign(o) /\ IsAny(b, s, {43, 45})
      p == IF sg THEN s + 1 ELSE s
      neg == sg /\ Is(b, s, 45)
      none == [e |-> 1, n |-> 0, D |-> <<>>]
      special(k, w) == [ok |-> TRUE, neg |-> neg, k |-> k, id |-> p, ie |-> p, fd |-> p, fe |-> p, e |-> p + Len(w), x |-> none]
  IN IF Word(b, p, INFINITYw) THEN special("inf", INFINITYw)
     ELSE IF Word(b, p, INFw) THEN special("inf", INFw)
     ELSE IF Word(b, p, NANw) THEN special("nan", NANw)
     ELSE LET ie == Span(b, p, DecDigits)
              dot == Is(b, ie, 46)
              fd == IF dot THEN ie + 1 ELSE ie
              fe == IF dot THEN Span(b, fd, DecDigits) ELSE fd
              ok == ie > p \/ fe > fd
              x == IF ok /\ ~ONoExp(o) /\ IsAny(b, fe, {69, 101})
                   THEN LET r == IntConv(Drop(b, fe + 1), 20, 4, TRUE)       \* no space, no base prefix
                        IN [r EXCEPT !.n = @ + fe + 1]
                   ELSE none
          IN [ok |-> ok, neg |-> neg, k |-> "dec", id |-> p, ie |-> ie, fd |-> fd, fe |-> fe,
              e |-> IF x.e = 1 THEN fe ELSE x.n, x |-> x]

\* ----------------------------------------------------- 32-digit decimal floats
(* [l, x]: 0.l[1]l[2]..l[8] * 10^(4x), limbs in base 10^4, l[1] > 0; zero has  *)
(* all limbs 0.                                                                *)
NL == 8
B4 == 10000
\* evaluate a lazily defined function on 1..n once (TLC keeps function constructors unevaluated)
RECURSIVE EvalFrom(_, _, _, _)
EvalFrom(f, i, n, acc) == IF i > n THEN acc ELSE EvalFrom(f, i + 1, n, Append(acc, f[i]))
Eval(f, n) == EvalFrom(f, 1, n, <<>>)
DZero == [l |-> Zeros(NL), x |-> 0]
DIsZero(a) == a.l[1] = 0

\* cut a longer limb sequence to NL limbs after removing leading zeros
RECURSIVE LeadZeros(_, _)
LeadZeros(l, i) == IF i > Len(l) \/ l[i] # 0 THEN i - 1 ELSE LeadZeros(l, i + 1)
DNorm(l, x) ==
  LET z == LeadZeros(l, 1) IN
  IF z = Len(l) THEN DZero
  ELSE [l |-> Eval([i \in 1..NL |-> IF i + z <= Len(l) THEN l[i + z] ELSE 0], NL), x |-> x - z]

DMul(a, b) ==
  IF DIsZero(a) \/ DIsZero(b) THEN DZero
  ELSE LET p == LimbProduct(a.l, b.l) IN
       IF p[1] # 0 THEN [l |-> SubSeq(p, 1, NL), x |-> a.x + b.x] ELSE [l |-> SubSeq(p, 2, NL + 1), x |-> a.x + b.x - 1]

\* the decimal digits ds (bytes) times 10^p; only the first digits matter for the value to 28 places
DFromDigits(ds, p) ==
  LET z == Span(ds, 0, {48})
      n == Len(ds) - z
      pt == n + p                              \* value = 0.d1d2.. * 10^pt
      x == IF pt >= 0 THEN (pt + 3) \div 4 ELSE -((-pt) \div 4)
      pad == 4*x - pt                          \* zeros put in front, 0..3
      dig(j) == LET i == j - pad IN IF i < 1 \/ i > n THEN 0 ELSE ds[z + i] - 48
      limb(i) == dig(4*i-3)*1000 + dig(4*i-2)*100 + dig(4*i-1)*10 + dig(4*i)
  IN IF n <= 0 THEN DZero ELSE [l |-> Eval([i \in 1..NL |-> limb(i)], NL), x |-> x]

DSmall(k) == [l |-> <<k>> \o Eval(Zeros(NL - 1), NL - 1), x |-> 1]
DPow10(p) == DFromDigits(<<49>>, p)
RECURSIVE DPowFrom(_, _, _, _)
DPowFrom(sq, n, i, acc) == IF n = 0 THEN acc ELSE DPowFrom(sq, n \div 2, i + 1, IF n % 2 = 1 THEN DMul(acc, sq[i]) ELSE acc)
DPow2(n) == IF n >= 0 THEN DPowFrom(Squares2, n, 1, DSmall(1)) ELSE DMul(DPowFrom(Squares5, -n, 1, DSmall(1)), DPow10(n))

\* little-endian bytes to limbs (big-endian, 5 limbs hold 20 digits)
RECURSIVE LimbsFrom(_, _, _)
RECURSIVE LimbMul(_, _, _, _)
LimbMul(l, i, carry, acc) == IF i = 0 THEN acc ELSE LET t == l[i] * 256 + carry IN LimbMul(l, i - 1, t \div B4, <<t % B4>> \o acc)
LimbsFrom(m, i, l) == IF i = 0 THEN l ELSE LimbsFrom(m, i - 1, LimbMul(l, 5, m[i], <<>>))
DFromMag(m) == DNorm(LimbsFrom(m, Len(m), Zeros(5)), 5)

\* compare
DCmp(a, b) ==
  IF DIsZero(a) \/ DIsZero(b) THEN (IF DIsZero(a) THEN 0 ELSE 1) - (IF DIsZero(b) THEN 0 ELSE 1)
  ELSE IF a.x # b.x THEN (IF a.x < b.x THEN -1 ELSE 1)
  ELSE CmpSeq(a.l, b.l)
\* a - b for a >= b, aligned at a
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(p, q, i, borrow, acc) ==
  IF i = 0 THEN acc
  ELSE LET t == p[i] - q[i] - borrow IN SubFrom(p, q, i - 1, IF t < 0 THEN 1 ELSE 0, <<IF t < 0 THEN t + B4 ELSE t>> \o acc)
DSub(a, b) ==
  IF DIsZero(b) \/ a.x - b.x >= NL THEN a
  ELSE LET sh == a.x - b.x
           q == Eval([i \in 1..NL |-> IF i > sh THEN b.l[i - sh] ELSE 0], NL)
       IN DNorm(SubFrom(a.l, q, NL, 0, <<>>), a.x)
DDist(a, b) == IF DCmp(a, b) >= 0 THEN DSub(a, b) ELSE DSub(b, a)
DScale(a, k, p) == DMul(DMul(a, DSmall(k)), DPow10(p))        \* a * k * 10^p, 0 < k < 10^4

\* ------------------------------------------------- binary floating point formats
Formats == [float |-> Fmt_float, double |-> Fmt_double, ldouble |-> Fmt_ldouble]

(* [k, neg, v]: k "inf", "nan" or "fin" *)
Decode(t, D) ==
  LET neg == D[Formats[t].w] >= 128
      r == CASE t = "float" ->
                  LET x == (D[4] % 128) * 2 + D[3] \div 128  f == <<D[1], D[2], D[3] % 128>> IN
                  [x |-> x, top |-> 255, zero |-> f = <<0, 0, 0>>, m |-> IF x = 0 THEN f ELSE [f EXCEPT ![3] = @ + 128], e |-> Max(x, 1) - 150]
             [] t = "double" ->
                  LET x == (D[8] % 128) * 16 + D[7] \div 16  f == SubSeq(D, 1, 6) \o <<D[7] % 16>> IN
                  [x |-> x, top |-> 2047, zero |-> \A i \in 1..7 : f[i] = 0, m |-> IF x = 0 THEN f ELSE [f EXCEPT ![7] = @ + 16], e |-> Max(x, 1) - 1075]
             [] t = "ldouble" ->
                  LET x == (D[10] % 128) * 256 + D[9]  f == SubSeq(D, 1, 8) IN
                  [x |-> x, top |-> 32767, zero |-> f = [i \in 1..8 |-> IF i = 8 THEN 128 ELSE 0], m |-> f, e |-> Max(x, 1) - 16446]
  IN IF r.x = r.top THEN [k |-> IF r.zero THEN "inf" ELSE "nan", neg |-> neg, v |-> DZero]
     ELSE [k |-> "fin", neg |-> neg, v |-> DMul(DFromMag(r.m), DPow2(r.e))]

\* the exponent as an integer, capped (beyond the cap every text is far outside every type)
XCap == 100000000
ExpValue(x) ==
  IF x.e # 0 THEN 0
  ELSE LET neg == x.D[4] >= 128
           m == IF neg THEN NegFrom(x.D, 4, 1, 1) ELSE x.D
           big == m[4] >= 5
           n == IF big THEN XCap ELSE ((m[4] * 256 + m[3]) * 256 + m[2]) * 256 + m[1]
       IN IF neg THEN -n ELSE n

FloatVal(b, t) ==
  LET ds == Cut(b, t.id, t.ie - t.id) \o Cut(b, t.fd, t.fe - t.fd)
  IN DFromDigits(ds, ExpValue(t.x) - (t.fe - t.fd))

(* What converting text b to floating-point type ty may do: e the set of     *)
(* allowed error codes, n bytes consumed.                                    *)
FloatConv(b, o, ty) ==
  LET t == FloatText(b, o)  F == Formats[ty] IN
  IF ~t.ok THEN [e |-> {1}, n |-> 0, k |-> "none", neg |-> FALSE, v |-> DZero]
  ELSE IF t.x.e = 2 THEN [e |-> {2}, n |-> t.e, k |-> "none", neg |-> FALSE, v |-> DZero]
  ELSE IF t.k # "dec" THEN [e |-> {0}, n |-> t.e, k |-> t.k, neg |-> t.neg, v |-> DZero]
  ELSE LET v == FloatVal(b, t)
           d == DCmp(DDist(v, F.max), F.maxnear)      \* within 10^-5 of the limit either is right
           es == IF d < 0 THEN {0, 2} ELSE IF DCmp(v, F.max) > 0 THEN {2} ELSE {0}
       IN [e |-> es, n |-> t.e, k |-> "fin", neg |-> t.neg, v |-> v]

(* Is the stored object D an acceptable image of the value r = FloatConv(..)? *)
ClassOk(r, c) == c.k = r.k /\ (r.k = "nan" \/ c.neg = r.neg)
ValueOk(ty, r, c) ==
  \/ r.k # "fin" \/ c.k # "fin"
  \/ LET F == Formats[ty] IN
     IF DIsZero(r.v) THEN DIsZero(c.v)
     ELSE IF DCmp(r.v, F.min) < 0 THEN DCmp(c.v, F.minhi) <= 0
     ELSE DCmp(DDist(c.v, r.v), DScale(r.v, F.tk, F.tp)) <= 0
=============================================================================
