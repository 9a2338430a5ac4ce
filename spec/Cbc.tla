-------------------------------- MODULE Cbc --------------------------------
(* CBC mode with PKCS#7 padding over any block cipher (E, D under an         *)
(* expanded key), any block size and any exclusive-or: what strbuf_encrypt   *)
(* and strbuf_decrypt do to the content.  TraceAcc instantiates it with      *)
(* AES-256, MC_Cbc with a toy cipher small enough to explore exhaustively.   *)
EXTENDS Integers, Sequences

CONSTANTS BS, E(_, _), D(_, _), XorBlock(_, _)      \* on blocks of BS bytes

Block(s, i) == SubSeq(s, BS*(i-1) + 1, BS*i)
PadLen(n) == BS - (n % BS)
Pad(m) == m \o [i \in 1..PadLen(Len(m)) |-> PadLen(Len(m))]
CipherLen(n) == (n \div BS + 1) * BS

RECURSIVE Chain(_, _, _, _, _)
Chain(k, prev, p, i, acc) ==
  IF BS * i > Len(p) THEN acc
  ELSE LET c == E(k, XorBlock(Block(p, i), prev)) IN Chain(k, c, p, i + 1, acc \o c)
Encrypt(k, iv, m) == Chain(k, iv, Pad(m), 1, <<>>)

RECURSIVE Unchain(_, _, _, _, _)
Unchain(k, prev, c, i, acc) ==
  IF BS * i > Len(c) THEN acc
  ELSE Unchain(k, Block(c, i), c, i + 1, acc \o XorBlock(D(k, Block(c, i)), prev))

PaddedOK(p) == LET n == p[Len(p)] IN
   /\ n \in 1..BS
   /\ \A i \in 1..n : p[Len(p) - i + 1] = n

\* [ok |-> is it well formed, m |-> the message]
Decrypt(k, iv, c) ==
  IF Len(c) = 0 \/ Len(c) % BS # 0 THEN [ok |-> FALSE, m |-> <<>>]
  ELSE LET p == Unchain(k, iv, c, 1, <<>>)
       IN IF PaddedOK(p) THEN [ok |-> TRUE, m |-> SubSeq(p, 1, Len(p) - p[Len(p)])] ELSE [ok |-> FALSE, m |-> <<>>]
=============================================================================
