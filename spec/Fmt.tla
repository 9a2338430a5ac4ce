--------------------------------- MODULE Fmt ---------------------------------
(* Formatted text: what printf/prnf produce for the conversions used here.   *)
(* A format is a sequence of pieces:                                         *)
(*   lit b | s b  literal bytes / %s                                         *)
(*   c v          %c                                                         *)
(*   d w v        %d, or %wd (space padded) when w > 0                       *)
(*   z w v        %0wd                                                       *)
(*   x v          %x (32-bit two's complement)                               *)
EXTENDS Bytes

MinInt32 == -2147483647 - 1
DecAbs(v)  == IF v = MinInt32 THEN <<50,49,52,55,52,56,51,54,52,56>> ELSE IF v < 0 THEN Dec(-v) ELSE Dec(v)
Digits(v)  == IF v < 0 THEN <<45>> \o DecAbs(v) ELSE DecAbs(v)
PadLeft(s, w) == IF Len(s) >= w THEN s ELSE Rep(32, w - Len(s)) \o s
ZeroPad(v, w) == LET d == DecAbs(v)  sg == IF v < 0 THEN <<45>> ELSE <<>>  n == Len(d) + Len(sg)
                 IN  sg \o (IF n >= w THEN <<>> ELSE Rep(48, w - n)) \o d
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexNat(_)
HexNat(n) == IF n < 16 THEN <<HexChar(n)>> ELSE HexNat(n \div 16) \o <<HexChar(n % 16)>>
RECURSIVE HexNot(_, _)      \* the complement of n in k nibbles
HexNot(n, k) == IF k = 0 THEN <<>> ELSE HexNot(n \div 16, k-1) \o <<HexChar(15 - (n % 16))>>
Hex(v) == IF v >= 0 THEN HexNat(v) ELSE HexNot(-(v+1), 8)

Piece(p) == CASE p.t \in {"lit", "s"} -> p.b
              [] p.t = "c" -> <<p.v>>
              [] p.t = "d" -> PadLeft(Digits(p.v), p.w)
              [] p.t = "z" -> ZeroPad(p.v, p.w)
              [] p.t = "x" -> Hex(p.v)
Render(f) == Flatten([i \in 1..Len(f) |-> Piece(f[i])])
=============================================================================
