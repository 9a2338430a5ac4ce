------------------------------ MODULE StrSize ------------------------------
(***************************************************************************)
(* The sizes of strbuf.h on their own: what an edit does to the size and   *)
(* the capacity of a buffer depends only on the sizes of its arguments.    *)
(* MC_StrSize shows that StrBuf refines this specification (for a small    *)
(* MaxInt); TraceHuge validates recorded calls on buffers whose size is    *)
(* near the real INT_MAX against it.                                       *)
(* A call: op, argument sizes z, validity v, whether an argument is (part  *)
(* of) the target self, integer i.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS MaxInt, GrowStep

Over(a, b) == a > MaxInt - b
Round(n) == LET r == n % GrowStep IN IF r = 0 THEN n ELSE IF Over(n, GrowStep - r) THEN MaxInt ELSE n + GrowStep - r

\* a buffer: k, cap, n
NoBuf == [k |-> "null", cap |-> 0, n |-> 0]
Void(b) == [b EXCEPT !.n = 0]
SRoom(b, n) == IF b.k = "dyn" /\ n > b.cap THEN [b EXCEPT !.cap = Round(n)] ELSE b
SSet(b, n) == IF n <= SRoom(b, n).cap THEN [SRoom(b, n) EXCEPT !.n = n] ELSE Void(b)
SAdd(b, m) == IF Over(b.n, m) THEN Void(b) ELSE SSet(b, b.n + m)

RECURSIVE STotal(_, _, _)
STotal(z, i, acc) == IF i > Len(z) THEN acc ELSE IF Over(acc, z[i]) THEN -1 ELSE STotal(z, i + 1, acc + z[i])

InsLike == {"append", "prepend", "insert", "before", "after", "char", "aprintf", "aprnf"}
\* the possible [k, cap, n] after a call on b
SEffects(e, b) ==
  CASE e.op \in {"append", "prepend", "insert", "char"} -> {SAdd(b, e.z[1])}
       \* formatted text is produced piecemeal: room for a part of it may have been made before the total is known
    [] e.op \in {"aprintf", "aprnf"} -> {SAdd(b, e.z[1])} \cup
         (IF Over(b.n, e.z[1]) /\ b.k = "dyn" THEN {[Void(b) EXCEPT !.cap = MaxInt]} ELSE {})
    [] e.op \in {"before", "after"} -> IF e.loc THEN {SAdd(b, e.z[1])} ELSE {b}
    [] e.op \in {"printf", "prnf"} -> {SSet(Void(b), e.z[1])}
    [] e.op = "assign" -> IF e.v THEN {SSet(b, e.z[1])} ELSE {Void(b)}
    [] e.op = "cat" -> LET t == STotal(e.z, 1, 0) IN
                       IF t = -1 THEN {Void(b)}
                       ELSE IF b.k = "fix" /\ e.self THEN {Void(b)}
                       ELSE IF b.k = "fix" /\ e.zself THEN {Void(b), SSet(b, t)}
                       ELSE {SSet(b, t)}
    [] e.op = "using" -> IF e.i < 0 \/ e.i > b.cap - b.n THEN {Void(b)} ELSE {[b EXCEPT !.n = @ + e.i]}
    [] e.op = "grow" -> {IF b.k = "dyn" /\ e.i > b.cap THEN [b EXCEPT !.cap = e.i] ELSE b}
    [] e.op = "shrink" -> {IF b.k = "dyn" THEN [b EXCEPT !.cap = b.n] ELSE b}
    [] e.op = "view" -> {b}
SOutcomes(e, b) == IF b.k = "null" THEN {b} ELSE SEffects(e, b)

SizesOK(b) == b.n <= b.cap /\ b.cap <= MaxInt /\ b.n >= 0
=============================================================================
