------------------------------ MODULE MC_StrBuf ------------------------------
(***************************************************************************)
(* Exhaustive exploration of StrBuf over small constants: every state a    *)
(* buffer can reach within MaxInt bytes, every call of the chosen          *)
(* operations with every literal, self view, location and index.           *)
(* The invariants and the step properties are checked on all of them; with *)
(* Emit each transition is printed, and the test generator turns the       *)
(* printed graph into walks which visit every transition on the real code. *)
(***************************************************************************)
EXTENDS StrBuf, Json

CONSTANTS Ops,        \* operations under study
          Bytes2,     \* the bytes literals are made of
          LitLen,     \* longest literal
          Allocs,     \* allocators in use
          Emit

VARIABLES st, last
vars == <<st, last>>

Lits == UNION {[1..n -> Bytes2] : n \in 0..LitLen}
Self(n) == {[t |-> "self", o |-> o, n |-> k] : o \in 0..n, k \in 0..n} 
SelfOf(n) == {a \in Self(n) : a.o + a.n <= n}
LitArgs == {[t |-> "lit", b |-> b] : b \in Lits}
NilArg == [t |-> "nil"]

N(s) == Len(st.buf[s].data)
Slots(s) == IF NSlots = 1 THEN {} ELSE
   UNION {{[t |-> "slot", s |-> q, o |-> 0, n |-> N(q)], [t |-> "slot", s |-> q, o |-> 0, n |-> Min(1, N(q))]} : q \in Slot \ {s}}
Args(s) == LitArgs \cup SelfOf(N(s)) \cup {NilArg} \cup Slots(s)
\* fewer for the calls which take several
Args2(s) == {[t |-> "lit", b |-> <<>>], [t |-> "lit", b |-> <<97>>], [t |-> "lit", b |-> <<98, 97>>], NilArg}
            \cup {[t |-> "self", o |-> 0, n |-> N(s)]}
            \cup {[t |-> "self", o |-> N(s) \div 2, n |-> N(s) - N(s) \div 2], [t |-> "self", o |-> 0, n |-> Min(1, N(s))]}
Locs(s) == SelfOf(N(s)) \cup {NilArg, [t |-> "foreign"]}
Idx == -(MaxInt+1)..(MaxInt+1)

C(op, s, a)    == [op |-> op, s |-> s, a |-> a, i |-> 0, d |-> NilArg, x |-> <<>>, aa |-> 0, q |-> 0]
Ci(op, s, i)   == [C(op, s, <<>>) EXCEPT !.i = i]

\* always available: they create and reset the states
BaseCalls(s) ==
  IF IsNull(st.buf[s])
  THEN {[Ci("create", s, c) EXCEPT !.aa = al] : c \in 0..MaxInt, al \in Allocs}
       \cup {[C("init", s, <<[t |-> "lit", b |-> b]>>) EXCEPT !.aa = al] : b \in {x \in Lits : Len(x) <= MaxInt}, al \in Allocs}
       \cup {[Ci("fixed", s, c) EXCEPT !.q = q] : c \in 0..(MaxInt+1), q \in {0, 1}}
       \cup {[Ci("create", s, 2) EXCEPT !.aa = -1]}
       \cup {C(op, s, <<>>) : op \in {"destroy", "view", "tocstr", "shrink"}}
       \cup {C("append", s, <<[t |-> "lit", b |-> <<97>>]>>), Ci("grow", s, 3)}
  ELSE {C("assign", s, <<[t |-> "lit", b |-> b]>>) : b \in Lits}
       \cup {C("destroy", s, <<>>)}

OpCalls(op, s) ==
  CASE op \in {"append", "prepend", "assign", "strip"} -> {C(op, s, <<a>>) : a \in Args(s)}
    [] op = "insert" -> {[C(op, s, <<a>>) EXCEPT !.i = i] : a \in Args(s), i \in Idx}
    [] op \in {"before", "after"} -> {[C(op, s, <<a>>) EXCEPT !.d = d] : a \in Args(s), d \in Locs(s)}
    [] op = "char" -> {Ci(op, s, c) : c \in Bytes2}
    [] op \in {"cat", "vcat"} -> {C(op, s, <<a>>) : a \in Args(s)} \cup {C(op, s, <<a, b>>) : a \in Args2(s), b \in Args2(s)}
                         \cup {C(op, s, <<a, b, c>>) : a \in Args2(s), b \in {NilArg, [t |-> "lit", b |-> <<97>>]}, c \in Args2(s)}
    [] op \in FmtOps -> {[C(op, s, <<>>) EXCEPT !.x = x] : x \in Lits}
                        \cup (IF op \in {"printf", "aprintf"} THEN {Ci(op, s, 1)} ELSE {})
    [] op = "using" -> {[C(op, s, <<>>) EXCEPT !.i = r, !.x = Rep(97, IF r < 0 \/ r > st.buf[s].cap - N(s) THEN Max(0, st.buf[s].cap - N(s)) ELSE r)]
                         : r \in -2..(MaxInt+1)}
    [] op = "grow" -> {Ci(op, s, c) : c \in -1..MaxInt}
    [] op \in {"view", "shrink", "tocstr"} -> {C(op, s, <<>>)}

Calls == UNION {BaseCalls(s) \cup (IF IsNull(st.buf[s]) THEN {} ELSE UNION {OpCalls(op, s) : op \in Ops}) : s \in Slot}
         \cup {Ci("freecs", 0, i) : i \in 1..Len(st.cs)}

Init == st = InitState /\ last = C("none", 0, <<>>)

Next == \E e \in Calls : \E o \in Outcomes(e, st) :
          /\ st' = o.st
          /\ last' = e
          /\ IF Emit /\ "overflow" \notin Features(e, st) THEN PrintT(ToJson(<<"T", st, e, o.st>>)) ELSE TRUE

Spec == Init /\ [][Next]_vars

Bounded == Len(st.cs) <= 1

TypeOK   == WellFormed(st)
Ledger   == LedgerOK(st)
Frame    == [][FrameOK(last', st, st')]_vars
Fixed    == [][FixedOK(last', st, st')]_vars
Cap      == [][CapOK(last', st, st')]_vars
LedgerStep == [][LedgerStepOK(last', st, st')]_vars

\* aliasing: a self view behaves exactly like a private copy of the text it shows (B03)
Unalias(e, s) == [e EXCEPT !.a = [i \in 1..Len(e.a) |->
      IF e.a[i].t = "self" THEN [t |-> "lit", b |-> Cut(st.buf[s].data, e.a[i].o, e.a[i].n)] ELSE e.a[i]]]
Alias == [][ LET e == last' IN
             (e.op \in SrcOps /\ ~(e.op \in {"cat", "vcat"} /\ IsFix(st.buf[e.s])) /\ ~IsNull(st.buf[e.s])) =>
                \E o \in Outcomes(Unalias(e, e.s), st) : o.st = st' ]_vars
\* an edit which does not fit empties the buffer, never truncates it (B04, B11)
NoTrunc == [][ LET e == last' IN
             (e.op \in SrcOps \ {"strip"} /\ ~IsNull(st.buf[e.s])) =>
                LET f == Features(e, st) IN
                ("nofit" \in f \/ "overflow" \in f) =>
                   \/ st'.buf[e.s].data = <<>>
                   \/ e.op \in LocOps /\ e.d.t # "self" /\ st' = st ]_vars
StView == st
=============================================================================
