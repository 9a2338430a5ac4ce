------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  Offsets are 0-based (as in C),   *)
(* TLA+ sequences are 1-based; Cut and At do the translation.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

At(s, o)      == s[o+1]                                \* byte at offset o
Cut(s, o, n)  == SubSeq(s, o+1, o+n)                   \* n bytes from offset o
Take(s, n)    == SubSeq(s, 1, n)
Drop(s, n)    == SubSeq(s, n+1, Len(s))
InsertAt(s, o, t) == Take(s, o) \o t \o Drop(s, o)
RangeOf(s)    == {s[i] : i \in 1..Len(s)}

IsUpper(b) == b \in 65..90
IsLower(b) == b \in 97..122
Upper(b)   == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
UpperSeq(s) == SubSeq([i \in 1..Len(s) |-> Upper(s[i])], 1, Len(s))

\* what a C function sees when handed these bytes as a C string
NulPos(s) == CHOOSE i \in 0..Len(s) : (i = Len(s) \/ s[i+1] = 0) /\ \A j \in 1..i : s[j] # 0
CStr(s) == Take(s, NulPos(s))

\* delete every byte that is in the set C
Without(s, C) == SelectSeq(s, LAMBDA b : b \notin C)

RECURSIVE FlattenFrom(_, _)
FlattenFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenFrom(ss, i+1)
Flatten(ss) == FlattenFrom(ss, 1)

\* bytewise unsigned order: -1, 0, 1
CmpSeq(s, t) ==
  LET n == Min(Len(s), Len(t))
      i == CHOOSE j \in 1..(n+1) : (j = n+1 \/ s[j] # t[j]) /\ \A k \in 1..(j-1) : s[k] = t[k]     \* first difference
  IN IF i <= n THEN (IF s[i] < t[i] THEN -1 ELSE 1)
     ELSE IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0

\* is t found in s at offset o
MatchAt(s, o, t) == o + Len(t) <= Len(s) /\ Cut(s, o, Len(t)) = t

Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

RECURSIVE Dec(_)      \* decimal digits of a natural number, as bytes
Dec(n) == IF n < 10 THEN <<48+n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecInt(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)

Rep(b, n) == [i \in 1..n |-> b]
=============================================================================
