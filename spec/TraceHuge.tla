----------------------------- MODULE TraceHuge -----------------------------
(* Trace validation of calls on a buffer of any size, up to INT_MAX bytes:    *)
(* sizes and capacity against StrSize, and the last bytes of the content     *)
(* (as far as they are known) against the bytes the calls put there.         *)
EXTENDS StrSize, FiniteSets, TLC, Json, IOUtils

CONSTANT Prop
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, b, tl, bad
vars == <<h, l, b, tl, bad>>

T(c, tag) == IF c THEN {} ELSE {tag}
KindOf(k) == CASE k = 0 -> "null" [] k = 1 -> "dyn" [] k = 2 -> "fix"
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
\* do two texts, known from their ends backwards, agree as far as both are known
Agree(s, t) == LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t) IN LastN(s, n) = LastN(t, n)

SelfArg(a) == a.t \in {"self", "end"} /\ a.n > 0
Call(ev) == [op |-> ev.op, i |-> ev.i, z |-> [j \in 1..Len(ev.a) |-> ev.a[j].n], v |-> Len(ev.a) = 0 \/ ev.a[1].t # "nil",
             self |-> \E j \in 1..Len(ev.a) : SelfArg(ev.a[j]), zself |-> \E j \in 1..Len(ev.a) : ev.a[j].t \in {"self", "end"} /\ ev.a[j].n = 0, loc |-> TRUE]

\* the end of the content after the call, as far as it is known
Bytes(a) == a.b
Clamp(i, n) == IF i > n THEN n ELSE IF i >= 0 THEN i ELSE IF n + i < 0 THEN 0 ELSE n + i
At(fromend, x) == IF fromend <= Len(tl) THEN SubSeq(tl, 1, Len(tl) - fromend) \o x \o LastN(tl, fromend) ELSE LastN(tl, fromend)
Stored == <<97, 98, 99, 100, 101, 102, 103, 104>>      \* the end of what the fetcher stores
EndOf(ev, o) ==
  IF o.n = 0 THEN <<>>
  ELSE CASE ev.op \in {"append", "char", "aprintf", "aprnf"} -> IF ev.a[1].t = "big" /\ ev.a[1].n > 0 THEN <<>> ELSE IF ev.a[1].t \in {"big", "self"} THEN tl ELSE tl \o ev.a[1].b
         [] ev.op \in {"printf", "prnf"} -> ev.a[1].b
         [] ev.op = "assign" -> IF ev.a[1].t = "self" THEN tl ELSE ev.a[1].b
         [] ev.op = "insert" -> At(b.n - Clamp(ev.i, b.n), ev.a[1].b)
         [] ev.op = "before" -> At(ev.i, ev.a[1].b)
         [] ev.op = "after"  -> At(0, ev.a[1].b)
         [] ev.op = "using" -> IF ev.i <= 0 THEN tl ELSE tl \o LastN(Stored, IF ev.i < 8 THEN ev.i ELSE 8)
         [] ev.op = "cat" -> LET x == ev.a[Len(ev.a)] IN IF x.t \in {"lit", "end"} THEN x.b ELSE IF x.t = "self" THEN tl ELSE <<>>
         [] ev.op = "prepend" -> IF Len(tl) < b.n \/ ev.a[1].t \in {"big", "self"} THEN tl ELSE ev.a[1].b \o tl
         [] OTHER -> tl

RetTags(ev, o) ==
  CASE ev.op \in {"new", "fix", "end"} -> {}
    [] b.k = "null" -> T(ev.r = <<0, 0>>, "ret")
    [] ev.op = "grow" /\ b.k = "fix" -> T(ev.r = <<0, 0>>, "ret")
    [] ev.op = "using" /\ (ev.i < 0 \/ ev.i > b.cap - b.n) -> T(ev.r = <<0, 0>>, "ret")
    [] ev.op = "enc" -> T(ev.r = <<0, 0>>, "ret")
    [] OTHER -> T(ev.r = <<1, o.n>>, "ret")
Obs(ev, o) ==
  T(KindOf(ev.k) = o.k, "null") \cup T(ev.n = o.n, "content") \cup T(ev.cap = o.cap, "cap") \cup T(ev.w = 1, "wf")
  \cup T(ev.t = 1, "term") \cup T(ev.z = 1, "block") \cup T(ev.e = 0, "ledger") \cup T(ev.L = (IF o.k = "dyn" THEN 1 ELSE 0), "ledger")
  \cup RetTags(ev, o) \cup T(Agree(ev.tl, EndOf(ev, o)) \/ ev.n # o.n, "content")

Outs(ev) ==
  CASE ev.op = "new" -> {[k |-> "dyn", cap |-> ev.i, n |-> 0]}
    [] ev.op = "fix" -> {[k |-> "fix", cap |-> ev.i, n |-> 0]}
    [] ev.op = "end" -> {NoBuf}
    [] ev.op = "enc" -> {b, Void(b)}              \* used only where the padded size leaves the int range
    [] OTHER -> SOutcomes(Call(ev), b)

Abnormal(ev) == "x_" \in DOMAIN ev
Flags(ev) == (IF b.k = "fix" THEN {"fixed"} ELSE {}) \cup (IF \E j \in 1..Len(ev.a) : SelfArg(ev.a[j]) THEN {"self"} ELSE {})
Owns(p, op, F, g) ==
  CASE p = "B01" -> op \in InsLike \cup {"assign"} /\ g \in {"content", "null", "crash", "hang"}
    [] p = "B02" -> g \in {"wf", "term", "block", "crash", "hang"}
    [] p = "B03" -> "self" \in F
    [] p = "B04" -> "fixed" \in F /\ op \notin {"new", "fix", "enc"}
    [] p = "B05" -> g = "ledger"
    [] p = "B06" -> op \in {"grow", "shrink"} \/ g \in {"cap", "block"} \/ ("fixed" \notin F /\ op \in InsLike \cup {"assign", "cat", "printf", "prnf"} /\ g = "crash")
    [] p = "B07" -> op \in {"printf", "aprintf", "prnf", "aprnf"}
    [] p = "B08" -> g = "ret" \/ op = "view"
    [] p = "B09" -> op = "cat"
    [] p = "B11" -> op # "enc"
    [] p = "B12" -> op = "using"
    [] p = "B13" -> op \in {"new", "fix"}
    [] p = "B14" -> op \in {"insert", "before", "after"}
    [] p = "A03" -> op = "enc"
    [] p = "ANY" -> TRUE [] OTHER -> FALSE
Mark(op, F, tags) == {<<op, g, Owns(Prop, op, F, g)>> : g \in tags}

Init == h \in 1..Len(Hist) /\ l = 1 /\ b = NoBuf /\ tl = <<>> /\ bad = {}
Ev == LET e == Hist[h].ev[l] IN IF e.op = "claim" THEN [e EXCEPT !.op = "using"] ELSE e
Full(ev) == IF "a" \in DOMAIN ev THEN ev ELSE [a |-> <<>>] @@ ev
StepEv ==
  LET raw == Ev IN
  IF Abnormal(raw) THEN UNCHANGED <<b, tl>> /\ bad' = Mark(raw.op, Flags(Full(raw)), IF raw.x_ = 2 THEN {"hang"} ELSE {"crash"})
  ELSE LET ev == Full(raw)
           M == {o \in Outs(ev) : Obs(ev, o) = {}}
       IN IF M # {} THEN (\E o \in M : b' = o /\ tl' = LastN(EndOf(ev, o), 8)) /\ bad' = {}
          ELSE UNCHANGED <<b, tl>> /\ bad' = Mark(ev.op, Flags(ev), Obs(ev, CHOOSE o \in Outs(ev) : TRUE))
Next == bad = {} /\ l <= Len(Hist[h].ev) /\ StepEv /\ l' = l + 1 /\ h' = h /\ (bad' = {} \/ PrintT(<<"MISMATCH", h, l, bad'>>))
Spec == Init /\ [][Next]_vars
Conforms == \A t \in bad : t[3] = FALSE
Sane == SizesOK(b)
TraceView == <<h, l, bad>>
Shown == [h |-> h, l |-> l, bad |-> bad]      \* of a state in an error trace
=============================================================================
