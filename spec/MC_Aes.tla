------------------------------- MODULE MC_Aes -------------------------------
(* The AES-256 specification against FIPS-197 appendix C.3, the CBC vectors  *)
(* of SP 800-38A (F.2.5), the algebraic definition of every table, and       *)
(* Dec(Enc(x)) = x along a chain of blocks and keys.                         *)
EXTENDS Aes, FiniteSets, TLC

CONSTANT Steps

X16(a, b) == AddKey(a, b, 1)
Mode == INSTANCE Cbc WITH BS <- 16, E <- EncBlock, D <- DecBlock, XorBlock <- X16

\* --- the field GF(2^8) by shift and reduce
XT(a) == LET d == 2 * a IN IF d >= 256 THEN (d - 256) ^^ 27 ELSE d
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ Mul(XT(a), b \div 2)
Inv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : Mul(a, b) = 1
Rot(x, k) == ((x * (2^k)) % 256) + (x \div (2^(8-k)))
Affine(x) == ((((x ^^ Rot(x, 1)) ^^ Rot(x, 2)) ^^ Rot(x, 3)) ^^ Rot(x, 4)) ^^ 99

TabOK(x) == /\ S1[x+1] = Affine(Inv(x)) /\ IS[S1[x+1]+1] = x
            /\ S2[x+1] = Mul(S1[x+1], 2) /\ S3[x+1] = Mul(S1[x+1], 3)
            /\ M9[x+1] = Mul(x, 9) /\ M11[x+1] = Mul(x, 11) /\ M13[x+1] = Mul(x, 13) /\ M14[x+1] = Mul(x, 14)

FipsKey == [i \in 1..32 |-> i-1]
FipsIn  == [i \in 1..16 |-> 17*(i-1)]
FipsOut == <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
Key2 == <<96,61,235,16,21,202,113,190,43,115,174,240,133,125,119,129,31,53,44,7,59,97,8,215,45,152,16,163,9,20,223,244>>
Iv2  == [i \in 1..16 |-> i-1]
P2 == <<107,193,190,226,46,64,159,150,233,61,126,17,115,147,23,42, 174,45,138,87,30,3,172,156,158,183,111,172,69,175,142,81>>
C2 == <<245,140,76,4,214,229,241,186,119,158,171,251,95,123,251,214, 156,252,78,150,126,219,128,141,103,159,119,123,198,112,44,125>>

VARIABLES n, blk, key
vars == <<n, blk, key>>
Init == n = 0 /\ blk = FipsIn /\ key = FipsKey
Next == /\ n < Steps /\ n' = n + 1
        /\ blk' = EncBlock(Expand(key), blk)
        /\ key' = IF n % 3 = 2 THEN SubSeq(key, 17, 32) \o blk ELSE key
Spec == Init /\ [][Next]_vars

Vectors == n = 0 => /\ EncBlock(Expand(FipsKey), FipsIn) = FipsOut
                    /\ SubSeq(Mode!Encrypt(Expand(Key2), Iv2, P2), 1, 32) = C2
                    /\ Mode!Decrypt(Expand(Key2), Iv2, Mode!Encrypt(Expand(Key2), Iv2, P2)) = [ok |-> TRUE, m |-> P2]
Tables  == n < 256 => TabOK(n)
Inverse == DecBlock(Expand(key), EncBlock(Expand(key), blk)) = blk
InverseMode == LET m == SubSeq(key \o key, 1, n % 49) w == Expand(key) IN
                  Mode!Decrypt(w, blk, Mode!Encrypt(w, blk, m)) = [ok |-> TRUE, m |-> m]
=============================================================================
