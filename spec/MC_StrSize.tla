----------------------------- MODULE MC_StrSize -----------------------------
(* Refinement: forgetting the bytes of StrBuf gives a behaviour of StrSize,  *)
(* for every call explored by MC_StrBuf, overflowing ones included.          *)
EXTENDS MC_StrBuf

Z == INSTANCE StrSize

Sizes(b) == [k |-> b.k, cap |-> b.cap, n |-> Len(b.data)]
SizeCall(e) ==
  LET s == e.s
      v(i) == Val(st, s, e.a[i])
      m == Len(e.a)
  IN [op |-> IF e.op = "vcat" THEN "cat" ELSE e.op, i |-> e.i,
      z |-> CASE e.op = "char" -> <<1>>
              [] e.op \in FmtOps -> <<Len(e.x)>>
              [] OTHER -> [i \in 1..m |-> v(i).n],
      v |-> m = 0 \/ v(1).valid,
      self |-> \E i \in 1..m : v(i).self, zself |-> \E i \in 1..m : v(i).zself,
      loc |-> e.d.t = "self"]

\* a formatter failure empties the buffer whatever the sizes are
Refines == [][ LET e == last' IN
              (e.op \in HandleOps \ {"strip"} /\ ~(e.op \in FmtOps /\ e.i = 1) /\ ~IsNull(st.buf[e.s])) =>
                 Sizes(st'.buf[e.s]) \in Z!SOutcomes(SizeCall(e), Sizes(st.buf[e.s])) ]_vars
=============================================================================
