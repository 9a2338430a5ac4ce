------------------------------- MODULE StrBuf -------------------------------
(***************************************************************************)
(* State machine of strbuf.h: buffer handles, the blocks behind them, and  *)
(* the public operations.                                                  *)
(*                                                                         *)
(* A call is a record e (op, target slot s, arguments).  Outcomes(e, st)   *)
(* is the set of results the library may produce from state st; the design *)
(* spec (Next) takes any of them, the trace spec (TraceBuf) requires the   *)
(* observed result to be one of them.  Almost every operation has exactly  *)
(* one outcome.                                                            *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS MaxInt,      \* INT_MAX
          GrowStep,    \* STRBUF_CAPACITY_GROW_STEP
          NSlots,      \* number of buffer handles
          NAlloc,      \* number of allocators (ids 1..NAlloc)
          HasDefault   \* a default allocator was compiled in (its id is 1)

Slot  == 1..NSlots
Alloc == 1..NAlloc

\* ------------------------------------------------------------------ state
(* buf : Slot -> handle.  k = "null" | "dyn" | "fix"                        *)
(* live: Alloc -> number of blocks obtained from it and not yet released    *)
(* cs  : C strings handed over by strbuf_to_cstr and not yet released:      *)
(*       sequence of [al |-> allocator id or 0, b |-> bytes]                *)
NullBuf == [k |-> "null", cap |-> 0, data |-> <<>>, al |-> 0]
InitState == [buf |-> [s \in Slot |-> NullBuf], live |-> [a \in Alloc |-> 0], cs |-> <<>>]

BufOf(st, s) == IF s = 0 THEN NullBuf ELSE st.buf[s]     \* slot 0: a null handle address

IsDyn(b) == b.k = "dyn"
IsFix(b) == b.k = "fix"
IsNull(b) == b.k = "null"

WillOverflow(a, b) == a > MaxInt - b
RoundUp(n) == LET r == n % GrowStep IN
              IF r = 0 THEN n
              ELSE IF WillOverflow(n, GrowStep - r) THEN MaxInt
              ELSE n + GrowStep - r

\* -------------------------------------------------------------- arguments
(* A source argument as passed to a call:                                   *)
(*  [t |-> "lit", b]      a view of foreign bytes b                         *)
(*  [t |-> "nil"]         an invalid view                                   *)
(*  [t |-> "self", o, n]  a view of n bytes at offset o of the target       *)
(*  [t |-> "slot", s, o, n] a view of another buffer's content              *)
(*  [t |-> "cs", b]       a C string argument (stops at the first zero)     *)
(*  [t |-> "csnil"]       a null C string                                   *)
(*  [t |-> "big", n]      a view claiming n bytes that must not be read     *)
\* value: valid?, size, bytes, and whether it is a view of the target
Val(st, s, a) ==
  CASE a.t = "lit"   -> [valid |-> TRUE,  n |-> Len(a.b), b |-> a.b, self |-> FALSE, zself |-> FALSE]
    [] a.t = "nil"   -> [valid |-> FALSE, n |-> 0, b |-> <<>>, self |-> FALSE, zself |-> FALSE]
    [] a.t = "self"  -> [valid |-> TRUE,  n |-> a.n, b |-> Cut(st.buf[s].data, a.o, a.n),
                         self |-> a.n > 0, zself |-> a.n = 0]
    [] a.t = "slot"  -> [valid |-> TRUE,  n |-> a.n, b |-> Cut(st.buf[a.s].data, a.o, a.n),
                         self |-> FALSE, zself |-> FALSE]
    [] a.t = "cs"    -> LET c == CStr(a.b) IN
                        [valid |-> TRUE,  n |-> Len(c), b |-> c, self |-> FALSE, zself |-> FALSE]
    [] a.t = "csnil" -> [valid |-> FALSE, n |-> 0, b |-> <<>>, self |-> FALSE, zself |-> FALSE]
    [] a.t = "big"   -> [valid |-> TRUE,  n |-> a.n, b |-> <<>>, self |-> FALSE, zself |-> FALSE]

\* ------------------------------------------------- pure effect on a buffer
Emptied(b)       == [b EXCEPT !.data = <<>>]
WithData(b, d)   == [b EXCEPT !.data = d]

\* make room for n bytes: a dynamic buffer grows, a fixed one does not
Room(b, n) == IF IsDyn(b) /\ n > b.cap THEN [b EXCEPT !.cap = RoundUp(n)] ELSE b
Fits(b, n) == n <= Room(b, n).cap

\* content becomes d (whose size is n), or the buffer is emptied
SetTo(b, n, d) == IF Fits(b, n) THEN WithData(Room(b, n), d) ELSE Emptied(b)

ClampIndex(b, i) == LET n == Len(b.data) IN
                    IF i > n THEN n ELSE IF i >= 0 THEN i ELSE Max(0, n + i)

InsertEff(b, off, v) ==                          \* off already in 0..size
  LET n == Len(b.data) IN
  IF WillOverflow(n, v.n) THEN Emptied(b)
  ELSE IF Fits(b, n + v.n) THEN WithData(Room(b, n + v.n), InsertAt(b.data, off, v.b))
  ELSE Emptied(b)

AssignEff(b, v) ==
  IF ~v.valid THEN Emptied(b) ELSE IF Fits(b, v.n) THEN WithData(Room(b, v.n), v.b) ELSE Emptied(b)

StripEff(b, v) == IF v.valid THEN WithData(b, Without(b.data, RangeOf(v.b))) ELSE b

AppendCharEff(b, c) == InsertEff(b, Len(b.data), [valid |-> TRUE, n |-> 1, b |-> <<c>>])

RECURSIVE SumSizes(_, _, _)      \* -1 when the sum leaves the int range
SumSizes(vs, i, acc) == IF i > Len(vs) THEN acc
                        ELSE IF WillOverflow(acc, vs[i].n) THEN -1
                        ELSE SumSizes(vs, i+1, acc + vs[i].n)

CatEffs(b, vs) ==
  LET total == SumSizes(vs, 1, 0)
      anySelf == \E i \in 1..Len(vs) : vs[i].self
      anyZero == \E i \in 1..Len(vs) : vs[i].zself
      all     == SetTo(b, total, Flatten([i \in 1..Len(vs) |-> vs[i].b]))
  IN IF total = -1 THEN {Emptied(b)}
     ELSE IF IsFix(b) /\ anySelf THEN {Emptied(b)}
     \* an empty view of itself given to a fixed buffer may or may not count as a view of itself
     ELSE IF IsFix(b) /\ anyZero THEN {Emptied(b), all}
     ELSE {all}

GrowEff(b, m)  == IF IsDyn(b) /\ m > b.cap THEN [b EXCEPT !.cap = m] ELSE b
ShrinkEff(b)   == IF IsDyn(b) THEN [b EXCEPT !.cap = Len(b.data)] ELSE b

\* formatted text x (bytes), or a formatter failure
FormatEff(b, append, x, fail) ==
  LET old == IF append THEN b.data ELSE <<>>
  IN IF fail \/ WillOverflow(Len(old), Len(x)) THEN Emptied(b) ELSE SetTo(b, Len(old) + Len(x), old \o x)

UsingEff(b, w, r) ==        \* the fetcher wrote w and returned r
  IF r < 0 \/ r > b.cap - Len(b.data) THEN Emptied(b)
  ELSE WithData(b, b.data \o Take(w, r))

\* --------------------------------------------------------------- outcomes
(* An outcome: the next state and what the call returns:                    *)
(*   rk = "view"  a view of the whole target buffer                         *)
(*        "inv"   an invalid view                                           *)
(*        "any"   not specified                                             *)
(*        "none"  the call returns nothing                                  *)
(*        "cstr"  a C string with bytes rb, rx = 1: in one allocator block   *)
(*        "nil"   a null pointer                                            *)
Res(st, rk)        == [st |-> st, rk |-> rk, rb |-> <<>>, rx |-> 0]
SetBuf(st, s, b)   == [st EXCEPT !.buf[s] = b]
View(st, s, b)     == Res(SetBuf(st, s, b), "view")

EditOps == {"append", "prepend", "insert", "before", "after", "assign", "strip", "char",
            "cat", "vcat", "printf", "aprintf", "prnf", "aprnf", "using"}
FmtOps  == {"printf", "aprintf", "prnf", "aprnf"}
HandleOps == EditOps \cup {"view", "grow", "shrink"}       \* return a view
CreateOps == {"create", "init", "fixed", "static"}

\* the edge of a location view: within the content of the target?
LocOK(st, s, e) == e.d.t = "self"

Effects(e, st) ==          \* effects of an operation on a live target
  LET s == e.s
      b == st.buf[s]
      v(i) == Val(st, s, e.a[i])
  IN CASE e.op = "append"  -> {InsertEff(b, Len(b.data), v(1))}
       [] e.op = "prepend" -> {InsertEff(b, 0, v(1))}
       [] e.op = "insert"  -> {InsertEff(b, ClampIndex(b, e.i), v(1))}
       [] e.op = "before"  -> IF LocOK(st, s, e) THEN {InsertEff(b, e.d.o, v(1))} ELSE {b}
       [] e.op = "after"   -> IF LocOK(st, s, e) THEN {InsertEff(b, e.d.o + e.d.n, v(1))} ELSE {b}
       [] e.op = "assign"  -> {AssignEff(b, v(1))}
       [] e.op = "strip"   -> {StripEff(b, v(1))}
       [] e.op = "char"    -> {AppendCharEff(b, e.i)}
       [] e.op \in {"cat", "vcat"} -> CatEffs(b, [i \in 1..Len(e.a) |-> v(i)])
       [] e.op \in FmtOps  -> {FormatEff(b, e.op \in {"aprintf", "aprnf"}, e.x, e.i = 1)}
       [] e.op = "using"   -> {UsingEff(b, e.x, e.i)}
       [] e.op = "view"    -> {b}
       [] e.op = "grow"    -> {GrowEff(b, e.i)}
       [] e.op = "shrink"  -> {ShrinkEff(b)}

RetKind(e, b) ==
  CASE e.op = "grow" /\ IsFix(b) -> "inv"
    [] e.op = "using" /\ (e.i < 0 \/ e.i > b.cap - Len(b.data)) -> "inv"
    [] OTHER -> "view"

NewDyn(st, s, al, cap, data) ==
  Res([SetBuf(st, s, [k |-> "dyn", cap |-> cap, data |-> data, al |-> al])
         EXCEPT !.live[al] = @ + 1], "none")
NewFix(st, s, cap) ==
  Res(SetBuf(st, s, [k |-> "fix", cap |-> cap, data |-> <<>>, al |-> 0]), "none")

\* allocator argument: 0 = NULL (the default allocator, if compiled in), -1 = one without a function
AllocOf(al) == IF al = 0 THEN (IF HasDefault THEN 1 ELSE 0) ELSE IF al = -1 THEN 0 ELSE al

\* creation always assigns the handle; the target slot is null before
CreateOut(e, st) ==
  LET s == e.s
      null == Res(SetBuf(st, s, NullBuf), "none")
  IN CASE e.op = "create" ->        \* e.i: capacity, e.i = -1 stands for any request beyond INT_MAX
            IF AllocOf(e.aa) = 0 \/ e.i < 0 THEN null ELSE NewDyn(st, s, AllocOf(e.aa), e.i, <<>>)
       [] e.op = "init" ->
            IF AllocOf(e.aa) = 0 THEN null
            ELSE LET v == Val(st, s, e.a[1]) IN NewDyn(st, s, AllocOf(e.aa), v.n, v.b)
       [] e.op = "fixed" ->         \* e.i: memory size minus header size, e.q = 1: address present and aligned
            IF e.q = 0 \/ e.i <= 0 THEN null ELSE NewFix(st, s, Min(e.i - 1, MaxInt))
       [] e.op = "static" -> NewFix(st, s, e.i)

DestroyOut(e, st) ==
  LET b == BufOf(st, e.s) IN
  IF IsNull(b) THEN Res(st, "none")
  ELSE IF IsDyn(b) THEN Res([SetBuf(st, e.s, NullBuf) EXCEPT !.live[b.al] = @ - 1], "none")
  ELSE Res(SetBuf(st, e.s, NullBuf), "none")

ToCstrOut(e, st) ==
  LET b == st.buf[e.s] IN
  [st |-> [SetBuf(st, e.s, NullBuf) EXCEPT !.cs = Append(@, [al |-> b.al, b |-> b.data])],
   rk |-> "cstr", rb |-> b.data, rx |-> IF IsDyn(b) THEN 1 ELSE 0]

FreeCsOut(e, st) ==        \* the user releases the i-th handed-over string through its allocator
  LET c == st.cs[e.i]
      rest == Take(st.cs, e.i - 1) \o Drop(st.cs, e.i)
      st1 == [st EXCEPT !.cs = rest]
  IN IF c.al = 0 THEN Res(st1, "none") ELSE Res([st1 EXCEPT !.live[c.al] = @ - 1], "none")

Outcomes(e, st) ==
  LET b == BufOf(st, e.s) IN
  IF e.op \in CreateOps THEN {CreateOut(e, st)}
  ELSE IF e.op = "freecs" THEN {FreeCsOut(e, st)}
  ELSE IF e.op = "destroy" THEN {DestroyOut(e, st)}
  ELSE IF e.op = "tocstr" THEN (IF IsNull(b) THEN {Res(st, "nil")} ELSE {ToCstrOut(e, st)})
  ELSE IF IsNull(b) THEN {Res(st, "inv")}
  ELSE {[View(st, e.s, nb) EXCEPT !.rk = RetKind(e, b)] : nb \in Effects(e, st)}

\* ----------------------------------------------------------------- features
(* What a call exercises: used to say which property a mismatch belongs to. *)
SrcOps == {"append", "prepend", "insert", "before", "after", "assign", "strip", "cat", "vcat"}
LocOps == {"before", "after"}
Needed(e, st) ==        \* the size the call asks for, -1 beyond the int range
  LET b == BufOf(st, e.s)
      v(i) == Val(st, e.s, e.a[i])
  IN CASE e.op \in {"append", "prepend", "insert", "before", "after"} ->
            IF WillOverflow(Len(b.data), v(1).n) THEN -1 ELSE Len(b.data) + v(1).n
       [] e.op = "assign" -> v(1).n
       [] e.op \in {"cat", "vcat"} -> SumSizes([i \in 1..Len(e.a) |-> v(i)], 1, 0)
       [] e.op = "char" -> IF WillOverflow(Len(b.data), 1) THEN -1 ELSE Len(b.data) + 1
       [] e.op \in {"aprintf", "aprnf"} -> IF WillOverflow(Len(b.data), Len(e.x)) THEN -1 ELSE Len(b.data) + Len(e.x)
       [] e.op \in {"printf", "prnf"} -> Len(e.x)
       [] OTHER -> Len(b.data)
Features(e, st) ==
  LET b == BufOf(st, e.s) n == Needed(e, st) IN
  (IF IsNull(b) THEN {"nullh"} ELSE IF IsFix(b) THEN {"fixed"} ELSE {"dyn"})
  \cup (IF e.op \in SrcOps /\ ~IsNull(b) /\ \E i \in 1..Len(e.a) : e.a[i].t = "self" THEN {"self"} ELSE {})
  \cup (IF ~IsNull(b) /\ n = -1 THEN {"overflow"} ELSE {})
  \cup (IF IsFix(b) /\ n > b.cap THEN {"nofit"} ELSE {})
  \cup (IF IsDyn(b) /\ n > b.cap THEN {"grows"} ELSE {})

\* -------------------------------------------------------------- properties
BufOK(b) == /\ b.k \in {"null", "dyn", "fix"}
            /\ Len(b.data) <= b.cap /\ b.cap <= MaxInt
            /\ b.k = "null" => b = NullBuf
            /\ b.k = "dyn" <=> b.al # 0

WellFormed(st) == \A s \in Slot : BufOK(st.buf[s])

\* every block is owned by exactly one handle or handed-over string
LedgerOK(st) == \A a \in Alloc :
   st.live[a] = Cardinality({s \in Slot : st.buf[s].al = a})
              + Cardinality({i \in 1..Len(st.cs) : st.cs[i].al = a})

\* a step from st to st2 by call e
FrameOK(e, st, st2)  == \A s \in Slot : (e.op = "freecs" \/ s # e.s) => st2.buf[s] = st.buf[s]
FixedOK(e, st, st2)  == \A s \in Slot :
   IsFix(st.buf[s]) /\ ~(e.op \in CreateOps /\ s = e.s) =>
        \/ st2.buf[s].k = "fix" /\ st2.buf[s].cap = st.buf[s].cap /\ st2.live = st.live
        \/ e.op \in {"destroy", "tocstr"} /\ s = e.s /\ st2.buf[s] = NullBuf /\ st2.live = st.live
        \/ e.op = "freecs" /\ st2.buf[s] = st.buf[s]
        \/ e.s # s /\ st2.buf[s] = st.buf[s]
CapOK(e, st, st2) == \A s \in Slot :
   IsDyn(st.buf[s]) /\ IsDyn(st2.buf[s]) /\ st.buf[s].al = st2.buf[s].al =>
      LET c == st.buf[s].cap  d == st2.buf[s].cap IN
      /\ d < c => e.op = "shrink" /\ d = Len(st.buf[s].data)
      /\ d > c => \/ e.op = "grow" /\ d = e.i
                  \/ e.op \in EditOps /\ (d % GrowStep = 0 \/ d = MaxInt)
                     /\ d - Len(st2.buf[s].data) < GrowStep
      /\ e.op \in {"grow", "shrink", "view"} => st2.buf[s].data = st.buf[s].data
LedgerStepOK(e, st, st2) == \A a \in Alloc :
   LET d == st2.live[a] - st.live[a] IN
   /\ d > 0 => d = 1 /\ e.op \in {"create", "init"}
   /\ d < 0 => d = -1 /\ e.op \in {"destroy", "freecs"}
=============================================================================
