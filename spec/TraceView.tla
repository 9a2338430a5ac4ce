------------------------------ MODULE TraceView ------------------------------
(***************************************************************************)
(* Trace validation of the strview.h family.  State: the memories created  *)
(* so far, the registers (views [m, o, n] of memory m, m = 0: invalid) and *)
(* the end-of-line variables.  Each event carries all of them as observed  *)
(* after the call; they must be what StrView says.  An empty view may be   *)
(* anywhere within the text it was taken from.                             *)
(***************************************************************************)
EXTENDS StrView, Json, IOUtils

CONSTANT Prop

Hist == ndJsonDeserialize(IOEnv.TRACE)
NReg == 6

VARIABLES h, l, mem, reg, eol, bad
vars == <<h, l, mem, reg, eol, bad>>

Inv == <<0, 0, 0>>
Bts(v) == IF v[1] = 0 THEN <<>> ELSE Cut(mem[v[1]], v[2], v[3])
Ok(v)  == v[1] > 0
R(r)   == IF r = 0 THEN Inv ELSE reg[r]

\* ---------------------------------------------------------- expected results
\* a part p of view v as a view
Of(v, p) == IF p.v THEN <<v[1], v[2] + p.o, p.n>> ELSE Inv

\* argument: [valid, b]
Arg(a) == CASE a.t = "lit" -> [v |-> TRUE, b |-> a.b]
            [] a.t = "cs"  -> [v |-> TRUE, b |-> CStr(a.b)]
            [] a.t = "reg" -> [v |-> Ok(reg[a.r]), b |-> Bts(reg[a.r])]
            [] OTHER       -> [v |-> FALSE, b |-> <<>>]

(* An expectation: r the result view (or <<>>: not compared), s the new value *)
(* of the source register (<<>>: unchanged), e the new end-of-line value      *)
(* (-1 unchanged), q the scalar result (-9: none).                            *)
X(r, s, e, q) == [r |-> r, s |-> s, e |-> e, q |-> q]

MovedOps == {"first", "last", "splitidx", "left", "right", "line"}      \* write the source and a result
ResOps == {"sub", "trim", "find", "dequote"}
BoolOps == {"match", "starts", "contains", "cmp", "valid"}

ExpMoved(ev) ==
  LET v == R(ev.s)  b == Bts(v)
      mv(x) == X(Of(v, x.r), Of(v, x.s), -1, -9)
  IN IF ev.s = 0 THEN X(Inv, <<>>, -1, -9)
     ELSE CASE ev.op \in {"first", "last"} ->
            IF ~Ok(v) THEN X(Inv, Inv, -1, -9)
            ELSE LET a == Arg(ev.a)  xq == ev.xq = 1 IN
                 mv(IF ev.op = "first" THEN SplitFirst(b, RangeOf(a.b), a.v, xq) ELSE SplitLast(b, RangeOf(a.b), a.v, xq))
       [] ev.op = "splitidx" -> IF ~Ok(v) THEN X(Inv, Inv, -1, -9) ELSE mv(SplitIndex(b, ev.i))
       [] ev.op \in {"left", "right"} ->
            LET p == IF ev.a.t = "reg" THEN reg[ev.a.r] ELSE Inv
                at == IF ev.op = "left" THEN p[2] ELSE p[2] + p[3]       \* absolute offset of the cut
            IN IF ~Ok(v) \/ ~Ok(p) \/ p[1] # v[1] \/ at < v[2] \/ at > v[2] + v[3]
               THEN X(Inv, v, -1, -9)
               ELSE LET x == SplitIndex(b, at - v[2]) IN
                    IF ev.op = "left" THEN mv(x) ELSE X(Of(v, x.s), Of(v, x.r), -1, -9)
       [] ev.op = "line" ->
            LET x == SplitLine(b, IF ev.k = 0 THEN 0 ELSE eol[ev.k]) IN
            X(Of(v, x.r), IF x.r.v THEN Of(v, x.s) ELSE v, IF ev.k = 0 THEN -1 ELSE x.e, -9)

ExpRes(ev) ==
  LET v == R(ev.s)  b == Bts(v) IN
  CASE ev.op = "sub" -> X(IF ~Ok(v) THEN Inv ELSE IF v[3] = 0 THEN v ELSE Of(v, Sub(b, ev.i, ev.n)), <<>>, -1, -9)
    [] ev.op = "trim" -> X(IF Ok(v) THEN Of(v, Trim(b, RangeOf(Arg(ev.a).b), ev.k)) ELSE Inv, <<>>, -1, -9)
    [] ev.op = "find" -> LET a == Arg(ev.a) IN
         X(IF Ok(v) /\ a.v THEN Of(v, Find(b, a.b, ev.k \in {1, 3}, ev.k \in {2, 3})) ELSE Inv, <<>>, -1, -9)
    [] ev.op = "dequote" -> X(IF Ok(v) THEN Of(v, Dequote(b)) ELSE Inv, <<>>, -1, -9)

B1(c) == IF c THEN 1 ELSE 0
ExpBool(ev) ==
  LET v == R(ev.s)  b == Bts(v)
      a == IF ev.op = "valid" THEN [v |-> FALSE, b |-> <<>>] ELSE Arg(ev.a)
  IN CASE ev.op = "valid"  -> B1(Ok(v))
       [] ev.op = "match"  -> B1(Ok(v) = a.v /\ EqU(b, a.b, ev.k = 1))
       [] ev.op = "starts" -> IF ~a.v THEN B1(~Ok(v)) ELSE B1(StartsWith(b, a.b, ev.k = 1))
       [] ev.op = "contains" -> B1(Ok(v) /\ a.v /\ Occurs(b, a.b, ev.k = 1) # {})
       [] ev.op = "cmp" -> CmpSeq(b, a.b)

\* ------------------------------------------------------------------- equality
\* observed o against expected x, taken from view src
Same(o, x, src) == \/ o = x
                   \/ /\ Ok(x) /\ Ok(o) /\ x[3] = 0 /\ o[3] = 0 /\ o[1] = x[1]
                      /\ o[2] >= src[2] /\ o[2] <= src[2] + src[3]
InSrc(o, src) == \/ o = Inv
                 \/ Ok(src) /\ o[1] = src[1] /\ o[2] >= src[2] /\ o[2] <= src[2] + src[3] /\ o[3] >= 0 /\ o[3] <= src[2] + src[3] - o[2]

T(c, tag) == IF c THEN {} ELSE {tag}

\* registers: who is written with what, relative to which source; everything else unchanged
RegTags(ev, w) ==      \* w: set of <<register, expected, source>>
  LET W == {x[1] : x \in w} IN
  UNION {T(Same(ev.G[x[1]], x[2], x[3]), "view") \cup T(x[2] = <<>> \/ InSrc(ev.G[x[1]], x[3]), "inside") : x \in w}
  \cup UNION {IF r \in W THEN {} ELSE T(ev.G[r] = reg[r], "frame") : r \in 1..NReg}
EolTags(ev, k, ok) ==
  UNION {IF j = k THEN T(ev.E[j] \in ok, "eol") ELSE T(ev.E[j] = eol[j], "frame") : j \in 1..2}
Common(ev) == T(ev.M = 1 /\ ev.m = 1, "mem")

HugeOps == {"hsub", "hsplit", "hleft", "hright"}
MemBytes(ev) == IF ev.op = "mem" THEN ev.b ELSE ev.b \o <<0>>
MemOps == {"mem", "cstr", "cstrsl"}
NextMem(ev) == IF ev.op \in MemOps
               THEN IF ev.mi <= Len(mem) THEN mem ELSE Append(mem, MemBytes(ev))
               ELSE IF ev.op = "wr" /\ ev.i >= 0      \* the user changes the text
               THEN [mem EXCEPT ![reg[ev.s][1]][reg[ev.s][2] + ev.i + 1] = ev.c]
               ELSE mem

Tags(ev) ==
  Common(ev) \cup
  (CASE ev.op \in MemOps ->
          LET n == IF ev.op = "cstr" THEN Len(CStr(ev.b)) ELSE Len(ev.b)
              x == <<ev.mi, 0, n>>
          IN RegTags(ev, {<<ev.d, x, x>>}) \cup EolTags(ev, 0, {}) \cup T(ev.op = "mem" \/ ev.r = x, "result")
     [] ev.op = "inv" -> RegTags(ev, {<<ev.d, Inv, Inv>>}) \cup T(ev.r = Inv, "result") \cup EolTags(ev, 0, {})
     [] ev.op = "copy" -> RegTags(ev, {<<ev.d, reg[ev.s], reg[ev.s]>>}) \cup EolTags(ev, 0, {})
     [] ev.op = "raw" -> RegTags(ev, {<<ev.d, IF Ok(reg[ev.s]) THEN Of(reg[ev.s], Part(ev.i, ev.n)) ELSE Inv, reg[ev.s]>>}) \cup EolTags(ev, 0, {})
     [] ev.op = "swap" -> RegTags(ev, {<<ev.d, reg[ev.s], reg[ev.s]>>, <<ev.s, reg[ev.d], reg[ev.d]>>}) \cup EolTags(ev, 0, {})
     [] ev.op = "wr" -> RegTags(ev, {}) \cup EolTags(ev, 0, {})
     [] ev.op = "seteol" -> RegTags(ev, {}) \cup EolTags(ev, ev.k, {ev.i})
     [] ev.op \in MovedOps ->
          LET x == ExpMoved(ev)  v == R(ev.s)
              w == {<<ev.d, x.r, v>>} \cup (IF ev.s = 0 \/ ev.s = ev.d THEN {} ELSE {<<ev.s, x.s, v>>})
              k == IF ev.op = "line" THEN ev.k ELSE 0
              okE == IF k = 0 THEN {} ELSE IF ev.s = 0 THEN {eol[k]} ELSE {x.e} \cup (IF SplitLine(Bts(v), eol[k]).any THEN {0} ELSE {})
          IN T(Same(ev.r, x.r, v), "result") \cup T(InSrc(ev.r, v), "inside") \cup RegTags(ev, w) \cup EolTags(ev, k, okE)
     [] ev.op \in ResOps ->
          LET x == ExpRes(ev)  v == R(ev.s) IN
          T(Same(ev.r, x.r, v) \/ (ev.op = "sub" /\ v[3] = 0 /\ ev.r = Inv), "result")
          \cup T(InSrc(ev.r, v), "inside") \cup RegTags([ev EXCEPT !.G[ev.d] = x.r], {<<ev.d, x.r, v>>}) \cup T(ev.G[ev.d] = ev.r, "frame") \cup EolTags(ev, 0, {})
     [] ev.op \in BoolOps -> T(ev.q = ExpBool(ev), "result") \cup RegTags(ev, {}) \cup EolTags(ev, 0, {})
     [] ev.op = "pop" ->
          LET v == R(ev.s)  b == Bts(v)  x == SplitIndex(b, 1) IN
          IF Len(b) = 0 THEN T(ev.c = 0, "result") \cup RegTags(ev, {}) \cup EolTags(ev, 0, {})
          ELSE T(ev.c = b[1], "result") \cup RegTags(ev, {<<ev.s, Of(v, x.s), v>>}) \cup EolTags(ev, 0, {})
     [] ev.op = "all" ->
          LET v == R(ev.s)  b == Bts(v)  a == Arg(ev.a)
              f == IF Ok(v) THEN Fields(b, RangeOf(a.b), a.v, ev.xq = 1, ev.n, 0) ELSE <<>>
          IN T(ev.c = Len(f) /\ Len(ev.F) = Len(f) /\ \A i \in 1..Min(Len(f), Len(ev.F)) : Same(ev.F[i], Of(v, f[i]), v), "result")
             \cup T(\A i \in 1..Len(ev.F) : InSrc(ev.F[i], v), "inside")
             \cup RegTags(ev, {}) \cup EolTags(ev, 0, {})
     [] ev.op = "tocstr" ->
          LET x == ToCstr(Bts(R(ev.s)), IF ev.nul = 1 THEN 0 ELSE ev.n) IN
          T(ev.q = 1 /\ Len(ev.D) = ev.n /\ Take(ev.D, Len(x)) = x
            /\ (ev.nul = 1 => \A i \in 1..ev.n : ev.D[i] = 126), "result")
          \cup RegTags(ev, {}) \cup EolTags(ev, 0, {})
     [] ev.op = "stream" ->
          LET b == Flatten(ev.ch) IN
          T(ev.run = 0 /\ ev.X = Lines(b), "result")
          \cup T(ev.run = 1 \/ ev.lo \in {Rest(b), PairTail(b) \o Rest(b)}, "rest")
          \cup RegTags(ev, {}) \cup EolTags(ev, 0, {})
     [] ev.op \in HugeOps ->      \* index arithmetic on a text of ev.n bytes, none of which is touched
          LET src == <<1, 0, ev.n>>
              at == IF ev.op = "hleft" THEN ev.i ELSE ev.i + ev.j
              x == CASE ev.op = "hsub" -> [r |-> SubN(ev.n, ev.i, ev.j), s |-> Part(0, ev.n)]
                     [] ev.op = "hsplit" -> SplitIndexN(ev.n, ev.i)
                     [] ev.op = "hleft" -> IF at < 0 \/ at > ev.n THEN [r |-> NoPart, s |-> Part(0, ev.n)] ELSE SplitIndexN(ev.n, at)
                     [] ev.op = "hright" -> IF at < 0 \/ at > ev.n THEN [r |-> NoPart, s |-> Part(0, ev.n)]
                                            ELSE LET y == SplitIndexN(ev.n, at) IN [r |-> y.s, s |-> y.r]
          IN T(Same(ev.r, Of(src, x.r), src), "result") \cup T(Same(ev.v, Of(src, x.s), src), "result") \cup T(InSrc(ev.r, src) /\ InSrc(ev.v, src), "inside")
     [] OTHER -> {"unknown"})

\* --------------------------------------------------------------- ownership
Owns(p, op, g) ==
  CASE p = "V01" -> g \in {"inside", "mem", "crash", "frame"}
    [] p = "V02" -> op \in {"first", "last", "all"}
    [] p = "V03" -> op \in {"line", "stream"}
    [] p = "V04" -> op \in {"find", "contains"}
    [] p = "V05" -> op \in {"match", "starts", "cmp"}
    [] p = "V06" -> op \in {"sub", "splitidx", "pop", "left", "right"} \cup HugeOps
    [] p = "V07" -> op \in {"trim", "dequote"}
    [] p = "V08" -> op \in {"cstr", "cstrsl", "inv", "tocstr", "swap", "valid", "sl", "cstrnull"}
    [] p = "ANY" -> TRUE
    [] OTHER -> FALSE
Mark(op, tags) == {<<op, g, Owns(Prop, op, g)>> : g \in tags}

Ev == Hist[h].ev[l]
Init == h \in 1..Len(Hist) /\ l = 1 /\ mem = <<>> /\ reg = [r \in 1..NReg |-> Inv] /\ eol = <<0, 0>> /\ bad = {}

StepEv ==
  LET ev == Ev IN
  IF "x_" \in DOMAIN ev
  THEN /\ bad' = Mark(ev.op, {IF ev.x_ = 2 THEN "hang" ELSE "crash"})
       /\ UNCHANGED <<mem, reg, eol>>
  ELSE IF ev.op \in {"nop", "end"} THEN UNCHANGED <<mem, reg, eol, bad>>
  ELSE /\ bad' = Mark(ev.op, Tags(ev))
       /\ mem' = NextMem(ev)
       /\ reg' = ev.G
       /\ eol' = ev.E

Next == /\ bad = {}
        /\ l <= Len(Hist[h].ev)
        /\ StepEv
        /\ l' = l + 1
        /\ h' = h
        /\ (bad' = {} \/ PrintT(<<"MISMATCH", h, l, bad'>>))

Spec == Init /\ [][Next]_vars
Conforms == \A t \in bad : t[3] = FALSE
Progress == <<h, l, bad>>
Shown == [h |-> h, l |-> l, bad |-> bad]      \* of a state in an error trace
=============================================================================
