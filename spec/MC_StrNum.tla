------------------------------ MODULE MC_StrNum ------------------------------
(***************************************************************************)
(* Every text built from up to MaxTok tokens, with every option set given. *)
(* The laws state the accepted syntax as a grammar (the consumed text is   *)
(* the longest numeral at the start) and integer values by arithmetic;     *)
(* with Emit every text is printed and then converted by the real code.    *)
(***************************************************************************)
EXTENDS StrNum, Json

CONSTANTS Kind, TokNames, MaxTok, Opts, Emit

Tok(t) == CASE t = "sp" -> <<32>> [] t = "-" -> <<45>> [] t = "+" -> <<43>> [] t = "." -> <<46>>
            [] t = "0" -> <<48>> [] t = "1" -> <<49>> [] t = "8" -> <<56>> [] t = "9" -> <<57>> [] t = "25" -> <<50, 53>>
            [] t = "b" -> <<98>> [] t = "B" -> <<66>> [] t = "x" -> <<120>> [] t = "F" -> <<70>> [] t = "g" -> <<103>>
            [] t = "0x" -> <<48, 120>> [] t = "0B" -> <<48, 66>>
            [] t = "big" -> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>      \* 2147483648
            [] t = "e" -> <<101>> [] t = "E" -> <<69>> [] t = "i" -> <<105>>
            [] t = "inf" -> <<105, 110, 102>> [] t = "INFinity" -> <<73, 78, 70, 105, 110, 105, 116, 121>> [] t = "nAn" -> <<110, 65, 110>>
Tokens == {Tok(t) : t \in TokNames}

VARIABLES txt, o, done
vars == <<txt, o, done>>

TokSeqs == UNION {[1..k -> Tokens] : k \in 0..MaxTok}
Init == /\ txt \in {Flatten(s) : s \in TokSeqs} /\ o \in Opts /\ ~(OBin(o) /\ OHex(o)) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<txt, o>>
        /\ IF Emit THEN PrintT(ToJson(<<"N", Kind, txt, o>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- grammar
All(lo, hi, C) == \A i \in lo..(hi-1) : txt[i+1] \in C          \* bytes at [lo, hi) are all in C
C2(i, c) == i < Len(txt) /\ txt[i+1] \in c
Starts(signed) == {i \in 0..Len(txt) : All(0, i, {32}) /\ (ONoSpace(o) => i = 0)}
\* offsets after the optional sign, with the sign
Signs(signed) == {<<i, 0>> : i \in Starts(signed)}
                 \cup (IF signed /\ ~ONoSign(o) THEN {<<i + 1, IF txt[i+1] = 45 THEN -1 ELSE 1>> : i \in {j \in Starts(signed) : C2(j, {43, 45})}} ELSE {})
PrefixBase(j) == IF ~ONoPrefix(o) /\ C2(j, {48}) /\ C2(j+1, {66, 98}) /\ ~OHex(o) THEN 2
                 ELSE IF ~ONoPrefix(o) /\ C2(j, {48}) /\ C2(j+1, {88, 120}) /\ ~OBin(o) THEN 16 ELSE 0
\* <<end, sign, base, first digit>> of every numeral at the start of the text
Numerals(signed) ==
  UNION {LET pb == PrefixBase(s[1])
             d == IF pb = 0 THEN s[1] ELSE s[1] + 2
             base == IF pb # 0 THEN pb ELSE IF OBin(o) THEN 2 ELSE IF OHex(o) THEN 16 ELSE 10
         IN {<<p, s[2], base, d>> : p \in {q \in (d+1)..Len(txt) : All(d, q, DigitsOf(base))}} : s \in Signs(signed)}

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumDigits(_, _, _)
SumDigits(d, p, base) == IF d = p THEN 0 ELSE DigitVal(txt[d+1]) * Pow(base, p - d - 1) + SumDigits(d + 1, p, base)

IntLaw ==
  Kind = "int" => \A signed \in {TRUE, FALSE} :
    LET t == IntText(txt, o, signed)  N == Numerals(signed) IN
    IF N = {} THEN ~t.ok
    ELSE LET L == CHOOSE x \in N : \A y \in N : y[1] <= x[1]
             v == SumDigits(L[4], L[1], L[3])
             x == IF L[2] = -1 THEN -v ELSE v
         IN /\ t.ok /\ t.e = L[1] /\ t.base = L[3] /\ t.neg = (L[2] = -1)
            /\ \A w \in {1, 2, 4} :
                 LET r == IntConv(txt, o, w, signed)
                     lo == IF ~signed THEN 0 ELSE IF w = 1 THEN -128 ELSE IF w = 2 THEN -32768 ELSE -2147483647
                     hi == IF w = 4 THEN 2147483647 ELSE IF signed THEN (IF w = 1 THEN 127 ELSE 32767) ELSE (IF w = 1 THEN 255 ELSE 65535)
                     u == IF x < 0 /\ w = 1 THEN x + 256 ELSE IF x < 0 /\ w = 2 THEN x + 65536 ELSE x
                 IN IF x < lo \/ x > hi THEN r.e = 2
                    ELSE r.e = 0 /\ r.n = L[1] /\ Len(r.D) = w
                         /\ (w = 1 => r.D = <<u>>) /\ (w = 2 => r.D = <<u % 256, u \div 256>>)

\* ------------------------------------------------------------- floating point
Words == {<<k, w>> \in {"inf", "nan"} \X {INFw, INFINITYw, NANw} : (k = "nan") <=> (w = NANw)}
\* ends of: digits, digits with a point, then an optional exponent
FDigits(p) == {q \in p..Len(txt) : All(p, q, DecDigits)}
Bodies(p) ==      \* ends of digits[.digits] with at least one digit
  {q \in FDigits(p) : q > p}
  \cup {r \in p..Len(txt) : \E q \in FDigits(p) : C2(q, {46}) /\ r >= q + 1 /\ All(q+1, r, DecDigits) /\ (q > p \/ r > q + 1)}
Exponents(q) ==   \* ends of an exponent starting at q
  IF ONoExp(o) \/ ~C2(q, {69, 101}) THEN {}
  ELSE {r \in 0..Len(txt) : LET d == IF C2(q+1, {43, 45}) /\ ~(r > q+1 /\ All(q+1, r, DecDigits)) THEN q + 2 ELSE q + 1 IN r > d /\ All(d, r, DecDigits)}
FloatNumerals ==
  UNION {{<<s[1] + Len(w[2]), s[2], w[1]>> : w \in {u \in Words : Word(txt, s[1], u[2])}}
         \cup {<<q, s[2], "dec">> : q \in Bodies(s[1])}
         \cup UNION {{<<r, s[2], "dec">> : r \in Exponents(q)} : q \in Bodies(s[1])} : s \in Signs(TRUE)}
FloatLaw ==
  Kind = "float" =>
    LET t == FloatText(txt, o)  N == FloatNumerals IN
    IF N = {} THEN ~t.ok
    ELSE LET L == CHOOSE x \in N : \A y \in N : y[1] <= x[1] IN
         /\ t.ok /\ t.e = L[1] /\ t.k = L[3] /\ t.neg = (L[2] = -1)
         \* zero is zero whatever its exponent; the value of a text without exponent is its digits over a power of ten
         /\ t.k = "dec" => LET v == FloatVal(txt, t) IN
              /\ DIsZero(v) <=> \A i \in t.id..(t.fe - 1) : txt[i+1] \in {46, 48}
              /\ t.x.e = 1 => DMul(v, DPow10(t.fe - t.fd)) = DFromDigits(Cut(txt, t.id, t.ie - t.id) \o Cut(txt, t.fd, t.fe - t.fd), 0)
=============================================================================
