------------------------------- MODULE StrAcc -------------------------------
(***************************************************************************)
(* The accessories: descriptor I/O on buffers and views, integer packing,  *)
(* encryption.  The state adds to StrBuf one view `av' with its own memory *)
(* `vb'.  A descriptor answers each call as it likes: e.i is its answer    *)
(* (-1, 0 or the number of bytes moved), e.x the bytes it delivered or was *)
(* offered.                                                                *)
(*   rd  read the descriptor into the buffer                               *)
(*   wr  write the buffer to the descriptor                                *)
(*   vw  write the view to the descriptor                                  *)
(*   vset, vbuf, vinv  the user points the view at given bytes, at a copy  *)
(*                     of a buffer's content, at nothing                   *)
(*   pack, unpack      e.x: the value as little-endian bytes, e.be         *)
(*   enc, dec          e.key, e.iv                                         *)
(*   poke              the environment changes one byte of the content     *)
(***************************************************************************)
EXTENDS StrBuf

CONSTANTS Cipher(_, _, _),     \* key, vector, message -> ciphertext
          Plain(_, _, _),      \* key, vector, ciphertext -> [ok, m]
          CipherSize(_),       \* size of the ciphertext of n bytes
          Flip(_, _)           \* exclusive or of two bytes

NoView == <<0, 0, 0>>
AccInit == [st |-> InitState, vb |-> <<>>, av |-> NoView]

Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
InOrder(x, be) == IF be = 1 THEN Rev(x) ELSE x

\* the view after n bytes were taken from its front; what remains of a view used up is not specified
After(av, n) == IF n = av[3] THEN {NoView, <<1, av[2] + n, 0>>} ELSE {<<1, av[2] + n, av[3] - n>>}
ViewBytes(a) == Cut(a.vb, a.av[2], a.av[3])

AccOps == {"rd", "wr", "vw", "vset", "vbuf", "vinv", "pack", "unpack", "enc", "dec", "poke"}

\* --- what the descriptor must be offered
Offered(e, a) ==        \* [calls |-> allowed number of calls, n, o |-> offset in the content]
  LET b == BufOf(a.st, e.s) IN
  CASE e.op = "rd" -> IF IsNull(b) THEN [calls |-> {0}, n |-> 0, o |-> 0]
                      ELSE [calls |-> IF b.cap = Len(b.data) THEN {0, 1} ELSE {1}, n |-> b.cap - Len(b.data), o |-> Len(b.data)]
    [] e.op = "wr" -> IF IsNull(b) THEN [calls |-> {0}, n |-> 0, o |-> 0]
                      ELSE [calls |-> IF b.data = <<>> THEN {0, 1} ELSE {1}, n |-> Len(b.data), o |-> 0]
    [] e.op = "vw" -> IF e.nul = 1 \/ a.av[1] = 0 THEN [calls |-> {0}, n |-> 0, o |-> 0]
                      ELSE [calls |-> IF a.av[3] = 0 THEN {0, 1} ELSE {1}, n |-> a.av[3], o |-> a.av[2]]
\* the bytes it must be offered
Content(e, a) == IF e.op = "wr" THEN BufOf(a.st, e.s).data ELSE ViewBytes(a)

\* --- effects
ASet(a, s, b) == [a EXCEPT !.st.buf[s] = b]
ARes(a, rk) == [a |-> a, rk |-> rk]

\* encryption may leave a dynamic buffer with any capacity that holds what it held and the result
CryptCap(b, cap, n) == IF IsDyn(b) /\ cap >= Max(b.cap, n) THEN [b EXCEPT !.cap = cap]
                       ELSE IF IsDyn(b) /\ n > b.cap THEN [b EXCEPT !.cap = n] ELSE b

EncOut(e, a) ==
  LET b == BufOf(a.st, e.s)
      n == CipherSize(Len(b.data))
  IN IF IsNull(b) THEN ARes(a, "inv")
     ELSE IF IsFix(b) /\ n > b.cap THEN ARes(a, "inv")
     ELSE ARes(ASet(a, e.s, WithData(CryptCap(b, e.cap, n), Cipher(e.key, e.iv, b.data))), "view")
DecOut(e, a) ==
  LET b == BufOf(a.st, e.s)
      p == Plain(e.key, e.iv, b.data)
      c == CryptCap(b, e.cap, Len(b.data))
  IN IF IsNull(b) THEN ARes(a, "inv")
     ELSE IF p.ok THEN ARes(ASet(a, e.s, WithData(c, p.m)), "view")
     ELSE ARes(ASet(a, e.s, WithData(c, <<>>)), "inv")

AccOutcomes(e, a) ==
  LET b == BufOf(a.st, e.s) IN
  CASE e.op = "rd" -> {IF IsNull(b) \/ e.i <= 0 THEN ARes(a, "any") ELSE ARes(ASet(a, e.s, WithData(b, b.data \o e.x)), "any")}
    [] e.op = "wr" -> {IF IsNull(b) \/ e.i <= 0 THEN ARes(a, "any") ELSE ARes(ASet(a, e.s, WithData(b, Drop(b.data, e.i))), "any")}
    [] e.op = "vw" -> IF e.nul = 1 \/ a.av[1] = 0 \/ e.i <= 0 THEN {ARes(a, "any")}
                      ELSE {ARes([a EXCEPT !.av = v], "any") : v \in After(a.av, e.i)}
    [] e.op = "vset" -> {ARes([a EXCEPT !.vb = e.b, !.av = <<1, 0, Len(e.b)>>], "any")}
    [] e.op = "vbuf" -> LET t == BufOf(a.st, e.s2) IN
                        {IF IsNull(t) THEN ARes([a EXCEPT !.vb = <<>>, !.av = NoView], "any")
                         ELSE ARes([a EXCEPT !.vb = t.data, !.av = <<1, 0, Len(t.data)>>], "any")}
    [] e.op = "vinv" -> {ARes([a EXCEPT !.vb = <<>>, !.av = NoView], "any")}
    [] e.op = "pack" -> {IF IsNull(b) THEN ARes(a, "any")
                         ELSE ARes(ASet(a, e.s, InsertEff(b, Len(b.data), [valid |-> TRUE, n |-> Len(e.x), b |-> InOrder(e.x, e.be)])), "any")}
    [] e.op = "unpack" -> {ARes([a EXCEPT !.av = v], "any") : v \in After(a.av, e.n)}
    [] e.op = "enc" -> {EncOut(e, a)}
    [] e.op = "dec" -> {DecOut(e, a)}
    [] e.op = "poke" -> {IF IsNull(b) \/ b.data = <<>> THEN ARes(a, "any")
                         ELSE ARes(ASet(a, e.s, WithData(b, [b.data EXCEPT ![e.i + 1] = Flip(@, e.n)])), "any")}

\* the value an unpack must yield, as little-endian bytes
Unpacked(e, a) == InOrder(Cut(a.vb, a.av[2], e.n), e.be)

\* the value of a byte-order conversion used in a wider expression, as 8 little-endian bytes; x: its own little-endian bytes
Widened(x, signed) == x \o [i \in 1..8 - Len(x) |-> IF signed = 1 /\ x[Len(x)] >= 128 THEN 255 ELSE 0]

\* --- well-formedness of the extended state
AccOK(a) == /\ WellFormed(a.st) /\ LedgerOK(a.st)
            /\ IF a.av[1] = 0 THEN a.av = NoView ELSE a.av[2] + a.av[3] <= Len(a.vb)
=============================================================================
