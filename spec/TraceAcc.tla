------------------------------ MODULE TraceAcc ------------------------------
(* Trace validation of the accessories (see TraceBuf): buffer calls in a     *)
(* history are validated against StrBuf as before.                           *)
EXTENDS StrAcc, StrFault, Fmt, Aes, Json, IOUtils

CONSTANT Prop

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, acc, bad
vars == <<h, l, acc, bad>>

X16(a, b) == AddKey(a, b, 1)
Mode == INSTANCE Cbc WITH BS <- 16, E <- EncBlock, D <- DecBlock, XorBlock <- X16
AesCipher(k, iv, m) == Mode!Encrypt(Expand(k), iv, m)
AesPlain(k, iv, c)  == Mode!Decrypt(Expand(k), iv, c)
AesSize(n) == Mode!CipherLen(n)
AesFlip(x, y) == x ^^ y

T(c, tag) == IF c THEN {} ELSE {tag}

\* a long text: the blocks recorded of it, its sizes, and what a damaged last block makes of it (Cbc, block by block)
LongTags(ev) ==
  LET rk == Expand(ev.key)  n == ev.n  nb == n \div 16 + 1
      x == X16(DecBlock(rk, ev.lc), ev.lq)
      good == Mode!PaddedOK(x)
  IN T(ev.es = AesSize(n) /\ ev.ok = 1, "size")
     \cup T(\A j \in 1..Len(ev.b) : LET e == ev.b[j] IN e.c = EncBlock(rk, X16(IF Len(e.p) = 16 THEN e.p ELSE Mode!Pad(e.p), e.q)), "content")
     \cup T(ev.es # AesSize(n) \/ {nb - 1} \subseteq {ev.b[j].i : j \in 1..Len(ev.b)}, "content")
     \cup T(ev.ds = n /\ ev.dk = 1, "inverse") \cup T(ev.m = 1, "src") \cup T(ev.e = 0, "ledger")
     \cup T(ev.bk = 1 /\ ev.bs = (IF good THEN nb * 16 - x[16] ELSE -1), "damaged")

KindOf(k) == CASE k = 0 -> "null" [] k = 1 -> "dyn" [] k = 2 -> "fix"
Norm(ev) == IF ev.op \in FmtOps THEN [x |-> Render(ev.f)] @@ ev ELSE ev

RetOK(ev, rk) == CASE rk = "view" -> ev.r = <<1, 0, Len(ev.D)>>
                   [] rk \in {"inv", "nil"} -> ev.r = <<0, 0, 0>>
                   [] OTHER -> TRUE
UserOps == {"vset", "vbuf", "vinv"}
Target(ev, st) ==     \* the target buffer and the block ledger as observed
  LET b == BufOf(st, ev.s) IN
  T(KindOf(ev.k) = b.k, "null") \cup T(ev.w # 1 \/ ev.D = b.data, "content") \cup T(ev.cap = b.cap, "cap")
  \cup T(ev.al = b.al \/ ev.k # 1, "ledger") \cup T(ev.L = st.live /\ ev.e = 0, "ledger")
  \cup T(ev.op \notin UserOps => \A x \in Alloc : (ev.u \div 2^x) % 2 = 1 => x \in {b.al, BufOf(acc.st, ev.s).al}, "ledger")
  \cup T(ev.w = 1, "wf") \cup T(ev.t = 1, "term") \cup T(ev.z = 1, "block")
  \cup T(ev.fa = 1, "addr") \cup T(ev.o = 1, "other") \cup T(ev.m = 1, "src")

IoTags(ev, a) == LET f == Offered(ev, a) IN
  T(ev.nq \in f.calls, "call")
  \cup (IF ev.nq = 0 THEN T(ev.rv = 0, "result")
        ELSE T(ev.fd = 1 /\ ev.q = f.n, "call") \cup T(ev.rv = ev.i /\ ev.en = 1, "result")
             \cup (IF ev.op = "rd" THEN T(ev.qo = f.o, "call") ELSE T(ev.x = Content(ev, a), "call")))

AccTags(ev, a, o) ==
  Target(ev, o.a.st) \cup T(RetOK(ev, o.rk), "ret")
  \cup T(ev.V = o.a.av, "view") \cup T(ev.vm = 1, "src")
  \cup (IF ev.op \in {"rd", "wr", "vw"} THEN IoTags(ev, a) ELSE {})
  \cup (IF ev.op = "unpack" THEN T(ev.x = Unpacked(ev, a) /\ ev.wv = Widened(Unpacked(ev, a), ev.sg), "value")
        ELSE IF ev.op = "pack" THEN T(ev.wv = Widened(InOrder(ev.x, ev.be), ev.sg), "value") ELSE {})

BufTags(ev, o) == Target(ev, o.st) \cup T(RetOK(ev, o.rk), "ret")

BFeatures(ev, a) == IF BufOf(a.st, ev.s).k = "null" THEN {"nullh"} ELSE {BufOf(a.st, ev.s).k}

Malformed(ev, a) == ev.op = "dec" /\ ~IsNull(BufOf(a.st, ev.s)) /\ ~AesPlain(ev.key, ev.iv, BufOf(a.st, ev.s).data).ok
AFeatures(ev, a) == BFeatures(ev, a) \cup (IF Malformed(ev, a) THEN {"bad"} ELSE {})

Owns(p, op, F, g) ==
  CASE p = "A01" -> op \in {"rd", "wr", "vw"}
    [] p = "A02" -> op \in {"pack", "unpack"} /\ g # "cap"
    [] p = "A03" -> op = "enc" \/ (op = "long" /\ g # "damaged") \/ (op = "dec" /\ "bad" \notin F)
    [] p = "A04" -> (op = "long" /\ g \in {"damaged", "crash", "hang"}) \/ (op = "dec" /\ ("bad" \in F \/ g \in {"crash", "hang"}))
    [] p = "B15" -> g \in {"unchecked", "asks"}
    [] p = "ANY" -> TRUE
    [] OTHER -> FALSE
Mark(op, F, tags) == {<<op, g, Owns(Prop, op, F, g)>> : g \in tags}

Ev == Hist[h].ev[l]
Abnormal(ev) == "x_" \in DOMAIN ev
AbnormalTags(ev) == IF ev.x_ = 2 THEN {"hang"} ELSE IF ev.x_ = 3 THEN {"crash", "ledger"} ELSE {"crash"}
\* which calls stop on content that is not a whole number of blocks
AbnormalF(ev) == IF ev.op = "dec" /\ LET n == Len(BufOf(acc.st, ev.s).data) IN n = 0 \/ n % 16 # 0 THEN {"bad"} ELSE {}

Init == h \in 1..Len(Hist) /\ l = 1 /\ acc = AccInit /\ bad = {}

StepEv ==
  LET raw == Ev IN
  IF Abnormal(raw) THEN acc' = acc /\ bad' = Mark(raw.op, AbnormalF(raw), AbnormalTags(raw))
  ELSE IF raw.op = "long" THEN acc' = acc /\ bad' = Mark("long", {}, LongTags(raw))
  ELSE IF raw.op = "nop" THEN acc' = acc /\ bad' = {}
  ELSE IF raw.op = "refuse" THEN acc' = acc /\ bad' = Mark("refuse", {}, T(Checked(Hist[h].ev, l), "unchecked"))
  ELSE IF raw.op = "stop" THEN acc' = acc /\ bad' = Mark("stop", {}, T(StopAllowed(Hist[h].ev, l, acc.st), "asks"))
  ELSE IF raw.op = "end" THEN acc' = acc /\ bad' = Mark("end", {}, T(raw.L = acc.st.live /\ raw.e = 0, "ledger"))
  ELSE IF raw.op \in AccOps THEN
     LET O == AccOutcomes(raw, acc)
         M == {o \in O : AccTags(raw, acc, o) = {}}
     IN IF M # {} THEN (\E o \in M : acc' = o.a) /\ bad' = {}
        ELSE /\ acc' = acc
             /\ LET o == CHOOSE x \in O : TRUE IN bad' = Mark(raw.op, AFeatures(raw, acc), AccTags(raw, acc, o))
  ELSE LET ev == Norm(raw)
           O == Outcomes(ev, acc.st)
           M == {o \in O : BufTags(ev, o) = {}}
     IN IF M # {} THEN (\E o \in M : acc' = [acc EXCEPT !.st = o.st]) /\ bad' = {}
        ELSE /\ acc' = acc
             /\ LET o == CHOOSE x \in O : TRUE IN bad' = Mark(ev.op, BFeatures(ev, acc), BufTags(ev, o))

Next == /\ bad = {}
        /\ l <= Len(Hist[h].ev)
        /\ StepEv
        /\ l' = l + 1
        /\ h' = h
        /\ (bad' = {} \/ PrintT(<<"MISMATCH", h, l, bad'>>))
Spec == Init /\ [][Next]_vars

Conforms == \A t \in bad : t[3] = FALSE
Sane == AccOK(acc)
TraceView == <<h, l, bad>>
Shown == [h |-> h, l |-> l, bad |-> bad]      \* of a state in an error trace
=============================================================================
