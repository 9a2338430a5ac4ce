------------------------------ MODULE TraceBuf ------------------------------
(***************************************************************************)
(* Trace validation of the strbuf.h family: every recorded history must be *)
(* a behaviour of StrBuf.  One initial state per history; each step        *)
(* consumes one event, requires the observed result to be one of           *)
(* Outcomes(event, state), and otherwise records which aspects of the      *)
(* result differ in `bad'.                                                 *)
(***************************************************************************)
EXTENDS StrFault, Fmt, Json, IOUtils

CONSTANT Prop            \* the property whose violations are reported

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, st, bad
vars == <<h, l, st, bad>>

EvOps == HandleOps \cup CreateOps \cup {"destroy", "tocstr", "freecs"}

\* fields the specification computes itself
Norm(ev) == IF ev.op \in FmtOps THEN [x |-> Render(ev.f)] @@ ev ELSE ev

KindOf(k) == CASE k = 0 -> "null" [] k = 1 -> "dyn" [] k = 2 -> "fix"

\* ------------------------------------------------ observed versus specified
T(c, tag) == IF c THEN {} ELSE {tag}
RetOK(ev, o) ==
  CASE o.rk = "view" -> ev.r = <<1, 0, Len(ev.D)>>
    [] o.rk = "inv"  -> ev.r = <<0, 0, 0>>
    [] o.rk = "nil"  -> ev.r = <<0, 0, 0>>
    [] o.rk = "cstr" -> /\ ev.r[1] = 4 /\ ev.R = o.rb
                        /\ IF o.rx = 1 THEN ev.r[2] = 1 /\ ev.r[3] = 0 ELSE ev.r[2] = 0 /\ ev.r[3] = 0
    [] OTHER -> TRUE
ObsTags(ev, s, o, before) ==     \* tags of the target projection against outcome o
  LET b == BufOf(o.st, s) IN
  T(KindOf(ev.k) = b.k, "null")
  \cup T(ev.w # 1 \/ ev.D = b.data, "content")
  \cup T(ev.cap = b.cap, "cap")
  \cup T(ev.al = b.al \/ (ev.k # 1), "ledger")
  \cup T(ev.L = o.st.live /\ ev.e = 0, "ledger")
  \cup T(\A a \in Alloc : (ev.u \div 2^a) % 2 = 1 => a \in {b.al, before.al}, "ledger")    \* no allocator but the buffer's own
  \cup T(ev.w = 1, "wf") \cup T(ev.t = 1, "term") \cup T(ev.z = 1, "block")
  \cup T(ev.fa = 1, "addr") \cup T(ev.o = 1, "other") \cup T(ev.m = 1, "src")
  \cup T(RetOK(ev, o), "ret")
  \cup (IF ev.op = "using" /\ ~IsNull(before)
        THEN T(ev.nq = 1 /\ ev.q = before.cap - Len(before.data) /\ ev.qo = Len(before.data), "fetch")
        ELSE IF ev.op = "using" THEN T(ev.nq = 0, "fetch") ELSE {})

Matching(ev, s) == {o \in Outcomes(ev, s) : ObsTags(ev, ev.s, o, BufOf(s, ev.s)) = {}}

\* ------------------------------------------------------------- ownership
(* Which property a mismatch is a violation of.                             *)
AllEdit == EditOps
FitOps  == {"append", "prepend", "insert", "before", "after", "assign", "cat", "vcat", "char"} \cup FmtOps
Owns(p, op, F, g) ==
  CASE p = "B01" -> op \in EditOps /\ "nullh" \notin F /\ g \in {"content", "other", "src", "null", "crash", "hang"}
    [] p = "B02" -> g \in {"wf", "term", "block", "crash", "hang"}
    [] p = "B03" -> "self" \in F
    [] p = "B04" -> /\ "fixed" \in F
                    /\ g \in {"content", "cap", "addr", "null", "ledger", "ret", "crash", "wf", "term"}
                    /\ (op \in FitOps \cup {"using", "grow", "shrink", "destroy", "tocstr", "strip", "view"})
    [] p = "B05" -> g \in {"ledger"} \/ (op \in {"destroy", "tocstr", "freecs"} /\ g \in {"null", "crash", "ret"})
                    \/ (op = "end")
    [] p = "B06" -> "dyn" \in F /\ (g \in {"cap", "block"} \/ (op \in FitOps /\ g = "crash")
                                   \/ (op \in {"grow", "shrink"} /\ g \in {"content", "crash", "null", "wf"}))
    [] p = "B07" -> op \in FmtOps /\ "nullh" \notin F /\ g # "cap"
    [] p = "B08" -> (g = "ret" /\ op # "tocstr") \/ "nullh" \in F \/ op = "view"
    [] p = "B09" -> op \in {"cat", "vcat"} /\ "nullh" \notin F /\ g # "cap"
    [] p = "B10" -> (op = "tocstr" /\ "nullh" \notin F) \/ op = "freecs"
    [] p = "B11" -> "overflow" \in F
    [] p = "B12" -> op = "using" /\ "nullh" \notin F
    [] p = "B13" -> op \in CreateOps
    [] p = "B14" -> op \in {"insert", "before", "after"} /\ "nullh" \notin F /\ g # "cap"
    [] p = "B15" -> g \in {"unchecked", "asks"}
    [] p = "ANY" -> TRUE
    [] OTHER -> FALSE

\* ------------------------------------------------------------------- steps
Ev == Hist[h].ev[l]

Abnormal(ev) == "x_" \in DOMAIN ev
AbnormalTags(ev) == IF ev.x_ = 2 THEN {"hang"} ELSE IF ev.x_ = 3 THEN {"crash", "ledger"} ELSE {"crash"}
AbnormalFeatures(ev) == (IF BufOf(st, ev.s).k = "null" THEN {"nullh"} ELSE IF BufOf(st, ev.s).k = "fix" THEN {"fixed"} ELSE {"dyn"})
                        \cup (IF ev.self = 1 THEN {"self"} ELSE {}) \cup (IF ev.big = 1 THEN {"overflow"} ELSE {})

Mark(op, F, tags) == {<<op, g, Owns(Prop, op, F, g)>> : g \in tags}

Init == h \in 1..Len(Hist) /\ l = 1 /\ st = InitState /\ bad = {}

StepEv ==
  LET raw == Ev IN
  IF Abnormal(raw) THEN st' = st /\ bad' = Mark(raw.op, AbnormalFeatures(raw), AbnormalTags(raw))
  ELSE IF raw.op = "nop" THEN st' = st /\ bad' = {}
  ELSE IF raw.op = "refuse" THEN st' = st /\ bad' = Mark("refuse", {}, T(Checked(Hist[h].ev, l), "unchecked"))
  ELSE IF raw.op = "stop" THEN st' = st /\ bad' = Mark("stop", {}, T(StopAllowed(Hist[h].ev, l, st), "asks"))
  ELSE IF raw.op = "end" THEN
     /\ st' = st
     /\ bad' = Mark("end", {}, T(raw.L = st.live /\ raw.e = 0, "ledger"))
  ELSE LET ev == Norm(raw)
           M  == Matching(ev, st)
       IN IF M # {} THEN (\E o \in M : st' = o.st) /\ bad' = {}
          ELSE /\ st' = st
               /\ LET o == CHOOSE x \in Outcomes(ev, st) : TRUE
                  IN bad' = Mark(ev.op, Features(ev, st), ObsTags(ev, ev.s, o, BufOf(st, ev.s)))

Next == /\ bad = {}
        /\ l <= Len(Hist[h].ev)
        /\ StepEv
        /\ l' = l + 1
        /\ h' = h
        /\ (bad' = {} \/ PrintT(<<"MISMATCH", h, l, bad'>>))

Spec == Init /\ [][Next]_vars

\* the recorded histories stay within the specification, as far as property Prop is concerned
Conforms == \A t \in bad : t[3] = FALSE
\* and so does every state they visit (checked on the specification's own state)
Sane == WellFormed(st) /\ LedgerOK(st)

TraceView == <<h, l, bad>>
Shown == [h |-> h, l |-> l, bad |-> bad]      \* of a state in an error trace
=============================================================================
