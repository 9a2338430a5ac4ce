------------------------------ MODULE MC_StrAcc ------------------------------
(***************************************************************************)
(* Exhaustive exploration of StrAcc over small constants, in three groups: *)
(* "io": one buffer and one view between a source and a sink which answer  *)
(*    every call in every way they may; the ghost queue `fifo' holds what  *)
(*    was delivered and not yet accepted.                                  *)
(* "pack": packs and the unpacks of a copy of the content.                 *)
(* "crypt": encryption, decryption and damage, with a toy block cipher on  *)
(*    two-byte blocks of two-bit bytes.                                    *)
(***************************************************************************)
EXTENDS StrAcc, Bitwise, Json

CONSTANTS Group, Caps, PackMax, CryptMax, Emit

VARIABLES a, last, fifo, vfifo, nx, past
vars == <<a, last, fifo, vfifo, nx, past>>

\* --- the toy cipher: a bijection on pairs for each key
TE(k, b) == LET y == (b[1] + 2 * b[2] + k) % 4 IN <<y, (b[2] + y) % 4>>
TD(k, c) == LET b == (c[2] + 4 - c[1]) % 4 IN <<(c[1] + 12 - 2 * b - k) % 4, b>>
TX(p, q) == <<p[1] ^^ q[1], p[2] ^^ q[2]>>
Toy == INSTANCE Cbc WITH BS <- 2, E <- TE, D <- TD, XorBlock <- TX
ToyCipher(k, iv, m) == Toy!Encrypt(k, iv, m)
ToyPlain(k, iv, c)  == Toy!Decrypt(k, iv, c)
ToySize(n) == Toy!CipherLen(n)
ToyFlip(x, y) == x ^^ y

B == BufOf(a.st, 1)
E0(op) == [op |-> op, s |-> 1, a |-> <<>>, i |-> 0, d |-> [t |-> "nil"], x |-> <<>>, aa |-> 0, q |-> 0,
           nul |-> 0, be |-> 0, n |-> 0, s2 |-> 1, b |-> <<>>, key |-> 0, iv |-> <<0, 0>>, cap |-> 0]
Lit(b) == <<[t |-> "lit", b |-> b]>>

\* the source numbers its bytes modulo 3
Stream(n) == [j \in 1..n |-> (nx + j - 1) % 3]
Answers(n) == -1..n

BufBase == IF IsNull(B)
  THEN {[E0("create") EXCEPT !.i = c, !.aa = 2] : c \in Caps} \cup {[E0("fixed") EXCEPT !.i = c + 1, !.q = 1] : c \in Caps}
  ELSE {E0("destroy")}

IoCalls ==
  BufBase
  \cup {[E0("rd") EXCEPT !.i = i, !.x = Stream(Max(i, 0))] : i \in Answers(Offered(E0("rd"), a).n)}
  \cup {[E0("wr") EXCEPT !.i = i] : i \in Answers(Offered(E0("wr"), a).n)}
  \cup {[E0("rd") EXCEPT !.s = 0], [E0("wr") EXCEPT !.s = 0, !.i = 2]}
  \cup (IF IsNull(B) THEN {} ELSE
        {E0("shrink"), [E0("grow") EXCEPT !.i = Min(MaxInt, Len(B.data) + 1)]} \cup (IF Len(B.data) < MaxInt THEN {[E0("append") EXCEPT !.a = Lit(<<nx>>)]} ELSE {}))
  \cup {E0("vbuf"), E0("vinv")}
  \cup {[E0("vw") EXCEPT !.s = 0, !.i = i] : i \in Answers(Offered(E0("vw"), a).n)}
  \cup {[E0("vw") EXCEPT !.s = 0, !.nul = 1, !.i = 1]}

Sizes == {1, 2, 4}
PackCalls ==
  BufBase
  \cup {[E0("pack") EXCEPT !.x = [j \in 1..n |-> (nx + j) % 3], !.be = be] : n \in {m \in Sizes : Len(B.data) + m <= PackMax}, be \in {0, 1}}
  \cup {E0("vbuf")}
  \cup {[E0("unpack") EXCEPT !.s = 0, !.n = n, !.be = be] : n \in {m \in Sizes : a.av[1] = 1 /\ m <= a.av[3]}, be \in {0, 1}}

Keys == {0, 1}
Ivs == {<<0, 0>>, <<1, 3>>}
CryptCalls ==
  BufBase
  \cup (IF IsNull(B) THEN {[E0("enc") EXCEPT !.s = 0], E0("dec")} ELSE
        {[E0("assign") EXCEPT !.a = Lit(m)] : m \in UNION {[1..n -> {0, 1, 2}] : n \in 0..CryptMax}}
        \cup {[E0("enc") EXCEPT !.key = k, !.iv = v] : k \in {j \in Keys : ToySize(Len(B.data)) <= MaxInt}, v \in Ivs}
        \cup {[E0("dec") EXCEPT !.key = k, !.iv = v] : k \in Keys, v \in Ivs}
        \cup {[E0("poke") EXCEPT !.i = i, !.n = x] : i \in 0..(Len(B.data) - 1), x \in {1, 3}}
        \cup {E0("shrink")})

Calls == CASE Group = "io" -> IoCalls [] Group = "pack" -> PackCalls [] Group = "crypt" -> CryptCalls

Init == a = AccInit /\ last = E0("none") /\ fifo = <<>> /\ vfifo = <<>> /\ nx = 0 /\ past = <<>>

Succ(e) == IF e.op \in AccOps THEN {o.a : o \in AccOutcomes(e, a)}
           ELSE {[a EXCEPT !.st = o.st] : o \in Outcomes(e, a.st)}

\* the ghosts follow the descriptor's side of the story, not the library's
Ghost(e) ==
  /\ nx' = CASE e.op = "rd" /\ e.s = 1 -> (nx + Max(e.i, 0)) % 3
             [] e.op = "append" -> (nx + 1) % 3
             [] e.op = "pack" -> (nx + Len(e.x)) % 3
             [] OTHER -> nx
  /\ fifo' = CASE e.op \in {"rd"} /\ e.s = 1 /\ ~IsNull(B) /\ e.i > 0 -> fifo \o e.x
               [] e.op = "append" -> IF a'.st.buf[1].data = <<>> THEN <<>> ELSE fifo \o e.a[1].b     \* may not fit: emptied
               [] e.op = "wr" /\ e.s = 1 /\ e.i > 0 -> Drop(fifo, e.i)
               [] e.op = "destroy" -> <<>>
               [] OTHER -> fifo
  /\ vfifo' = CASE e.op = "vbuf" -> fifo [] e.op = "vinv" -> <<>>
                [] e.op = "vw" /\ e.nul = 0 /\ e.i > 0 -> Drop(vfifo, e.i)
                [] OTHER -> vfifo
  /\ past' = CASE e.op = "enc" /\ ~IsNull(B) /\ e.s = 1 /\ a'.st.buf[1].data # B.data -> <<[k |-> e.key, v |-> e.iv, m |-> B.data]>>
               [] e.op \in {"shrink"} -> past
               [] OTHER -> <<>>

Next == \E e \in Calls : \E n \in Succ(e) :
          /\ a' = n /\ last' = e
          /\ Ghost(e)
          /\ IF Emit THEN PrintT(ToJson(<<"T", [a |-> a, nx |-> nx], e, [a |-> n, nx |-> nx']>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars

TypeOK == AccOK(a)
\* bytes delivered = bytes accepted and bytes still held, in order
Conserve == Group = "io" => /\ fifo = B.data
                            /\ IF a.av[1] = 1 THEN vfifo = ViewBytes(a) ELSE vfifo = <<>>
\* an error or an empty transfer changes nothing
NoEffect == [][last'.op \in {"rd", "wr", "vw"} /\ last'.i <= 0 => a' = a]_vars
Inert    == [][last'.s = 0 /\ last'.op \in {"rd", "wr", "enc", "dec"} => a' = a]_vars
\* what was packed is read back
PackBack == [][last'.op = "pack" /\ ~IsNull(B) /\ a'.st.buf[1].data # <<>> =>
                 LET d == a'.st.buf[1].data n == Len(last'.x) IN
                 /\ Len(d) = Len(B.data) + n /\ Take(d, Len(B.data)) = B.data
                 /\ InOrder(Drop(d, Len(B.data)), last'.be) = last'.x]_vars
\* decryption under the same key and vector undoes encryption
Undo == [][(last'.op = "dec" /\ past # <<>> /\ last'.s = 1 /\ past[1].k = last'.key /\ past[1].v = last'.iv) => a'.st.buf[1].data = past[1].m]_vars
\* sizes: encryption pads to the next whole number of blocks, decryption removes 1 to BS bytes or everything
CryptSizes == [][ /\ ((last'.op = "enc" /\ a' # a) => Len(a'.st.buf[1].data) = ToySize(Len(B.data)))
                  /\ (last'.op = "dec" /\ last'.s = 1 /\ ~IsNull(B)) =>
                        LET n == Len(B.data) m == Len(a'.st.buf[1].data) IN m = 0 \/ (n % 2 = 0 /\ m >= n - 2 /\ m < n) ]_vars
\* a fixed buffer without room is left alone
NoRoom == [][last'.op = "enc" /\ IsFix(B) /\ ToySize(Len(B.data)) > B.cap => a' = a]_vars
AView == <<a, fifo, vfifo, nx, past>>
=============================================================================
