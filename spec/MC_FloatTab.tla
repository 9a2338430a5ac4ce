----------------------------- MODULE MC_FloatTab -----------------------------
(***************************************************************************)
(* The decimal-float arithmetic of StrNum, checked against integers, and   *)
(* the generated tables of FloatTab, checked against the arithmetic.       *)
(***************************************************************************)
EXTENDS StrNum

CONSTANT Deep
Nums == {0, 1, 2, 9, 10, 255, 9999, 10000, 10001, 65535, 123456, 99999999, 100000000, 2147483646}
        \cup (IF Deep THEN {i * 7919 : i \in 1..40} \cup {i * 1048573 : i \in 1..20} ELSE {})
Pows == {-4931, -307, -37, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 16, 17, 20, 38, 308, 4932}
        \cup (IF Deep THEN -40..40 \cup {i * 97 - 4000 : i \in 1..80} ELSE {})
VARIABLES a, b, p, done
Init == a \in Nums /\ b \in Nums /\ p \in Pows /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, p>>
Spec == Init /\ [][Next]_<<a, b, p, done>>

RECURSIVE LE(_)
LE(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256)
D(n) == DFromMag(LE(n))                         \* from little-endian bytes
ED(n, q) == DFromDigits(Dec(n), q)              \* from decimal digits
Neg(n) == -n
Close(x, y) == IF DIsZero(x) \/ DIsZero(y) THEN x = y ELSE DCmp(DDist(x, y), DScale(x, 1, -23)) <= 0

ConvLaw == D(a) = ED(a, 0) /\ (DIsZero(D(a)) <=> a = 0)
CmpLaw  == DCmp(D(a), D(b)) = Sign(a - b)
SubLaw  == a >= b => DSub(D(a), D(b)) = D(a - b) /\ DDist(D(b), D(a)) = D(a - b)
MulLaw  == (a < 40000 /\ b < 40000) => DMul(D(a), D(b)) = D(a * b)
PowLaw  == Close(DMul(ED(a, p), DPow10(-p)), D(a)) /\ Close(DMul(DMul(D(a), DPow2(p)), DPow2(-p)), D(a))
           /\ (p \in 0..20 => DPow2(p) = D(2^p))
TabLaw  == /\ \A i \in 1..14 : Close(Squares2[i+1], DMul(Squares2[i], Squares2[i])) /\ Close(Squares5[i+1], DMul(Squares5[i], Squares5[i]))
           /\ Squares2[1] = D(2) /\ Squares5[1] = D(5)
           /\ Close(Fmt_float.min, DPow2(-126)) /\ Close(Fmt_double.min, DPow2(-1022)) /\ Close(Fmt_ldouble.min, DPow2(-16382))
           /\ Close(Fmt_float.max, DMul(DFromMag(<<255, 255, 255>>), DPow2(104)))
           /\ Close(Fmt_double.max, DMul(DFromMag(<<255, 255, 255, 255, 255, 255, 31>>), DPow2(971)))
           /\ Close(Fmt_ldouble.max, DMul(DFromMag(MaxUnsigned(8)), DPow2(16320)))
           /\ \A f \in {Fmt_float, Fmt_double, Fmt_ldouble} : Close(f.minhi, DScale(f.min, 1001, -3)) /\ Close(f.maxnear, DScale(f.max, 1, -5))
\* known images: 1.0, -2.5, the largest float, the smallest denormal; long double 1.0
Img(t, b8, neg, v) == LET c == Decode(t, b8) IN c.k = "fin" /\ c.neg = neg /\ Close(c.v, v)
DecodeLaw == /\ Img("float", <<0, 0, 128, 63>>, FALSE, D(1))
             /\ Img("float", <<0, 0, 32, 192>>, TRUE, ED(25, -1))
             /\ Img("double", <<0, 0, 0, 0, 0, 0, 4, 192>>, TRUE, ED(25, -1))
             /\ Img("ldouble", <<0, 0, 0, 0, 0, 0, 0, 128, 255, 63>>, FALSE, D(1))
             /\ Img("double", <<0, 0, 0, 0, 0, 0, 0, 128>>, TRUE, DZero)
             /\ Close(Decode("float", <<255, 255, 127, 127>>).v, Fmt_float.max)
             /\ Close(Decode("double", <<0, 0, 0, 0, 0, 0, 16, 0>>).v, Fmt_double.min)
             /\ Close(Decode("float", <<1, 0, 0, 0>>).v, DPow2(-149))
             /\ Decode("float", <<0, 0, 128, 255>>).k = "inf" /\ Decode("float", <<0, 0, 192, 255>>).k = "nan"
             /\ Decode("ldouble", <<0, 0, 0, 0, 0, 0, 0, 128, 255, 127>>).k = "inf" /\ Decode("double", <<1, 0, 0, 0, 0, 0, 240, 127>>).k = "nan"
ASSUME TabLaw
ASSUME DecodeLaw
=============================================================================
