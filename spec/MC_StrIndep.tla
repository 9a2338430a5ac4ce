----------------------------- MODULE MC_StrIndep -----------------------------
(***************************************************************************)
(* Independence (X01) on the specification: from every reachable state of  *)
(* two buffers, a call e on one and a call f on the other, neither naming  *)
(* the other's object, commute: the same results and the same final state  *)
(* in either order, and each call's result is what it is without the other.*)
(* A call which runs at some point inside another is atomic with respect   *)
(* to its own object, so whatever the point, the only results left are the *)
(* ones each history has alone - which is what is required of the recorded *)
(* histories of the interleaved executions.                                *)
(***************************************************************************)
EXTENDS MC_StrBuf

\* calls which name no other buffer
Own(e) == \A i \in 1..Len(e.a) : e.a[i].t # "slot"
CallsOn(s) == {e \in BaseCalls(s) \cup (IF IsNull(st.buf[s]) THEN {} ELSE UNION {OpCalls(op, s) : op \in Ops}) : Own(e)}

\* what a call shows of its outcome: its result, and its own object
Seen(o, s) == <<o.rk, o.rb, o.rx, o.st.buf[s]>>
Alone(e, x) == {Seen(o, e.s) : o \in Outcomes(e, x)}

Pairs(e, f, x) == UNION {{<<Seen(o, e.s), Seen(p, f.s), [b |-> p.st.buf, l |-> p.st.live]>> : p \in Outcomes(f, o.st)} : o \in Outcomes(e, x)}
Swap(S) == {<<t[2], t[1], t[3]>> : t \in S}

Commute == \A e \in CallsOn(1), f \in CallsOn(2) :
              LET ef == Pairs(e, f, st)  fe == Swap(Pairs(f, e, st)) IN
              /\ ef = fe
              /\ {t[1] : t \in ef} = Alone(e, st)
              /\ {t[2] : t \in ef} = Alone(f, st)
==============================================================================
