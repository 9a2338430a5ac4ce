------------------------------ MODULE StrFault ------------------------------
(***************************************************************************)
(* The default allocator with its allocation check compiled in             *)
(* (STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB).  A call asks the system for   *)
(* memory any number of times; each request is granted or refused.  A      *)
(* refused request ends the program at the check: no call returns, and     *)
(* nothing is done, on memory which was never obtained.                    *)
(***************************************************************************)
EXTENDS StrBuf

\* calls during which the default allocator (1) may be asked for memory ...
MayAsk(op, s, st) == \/ op \in CreateOps /\ HasDefault
                     \/ s \in Slot /\ IsDyn(st.buf[s]) /\ st.buf[s].al = 1
\* ... and those whose result o cannot be had without asking at least once
MustAsk(e, st, o) == \/ o.st.live[1] > st.live[1]
                     \/ \E s \in Slot : /\ IsDyn(o.st.buf[s]) /\ o.st.buf[s].al = 1 /\ IsDyn(st.buf[s])
                                        /\ o.st.buf[s].cap > st.buf[s].cap

\* in a recorded history: the refusal at place l must be followed by the stop at the check
Checked(evs, l) == l < Len(evs) /\ "x_" \notin DOMAIN evs[l+1] /\ evs[l+1].op = "stop"
StopAllowed(evs, l, st) == l > 1 /\ evs[l-1].op = "refuse" /\ MayAsk(evs[l].c, evs[l].s, st)
=============================================================================
