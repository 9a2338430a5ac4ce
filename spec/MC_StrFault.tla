----------------------------- MODULE MC_StrFault -----------------------------
(* Histories in which the system refuses a request for memory.  A call is no  *)
(* longer one step: it begins, makes requests one at a time, and returns or   *)
(* stops.  Backed says that no handle is ever without a block the allocator   *)
(* granted for it, at every point, also within calls and after the stop.      *)
EXTENDS MC_StrBuf, StrFault

CONSTANT MaxReq          \* requests a single call may make
VARIABLES call,          \* the call in progress, or "none"
          asked,         \* requests granted to it
          state          \* "running", "refused", "stopped"
fvars == <<st, last, call, asked, state>>

None == C("none", 0, <<>>)
FInit == Init /\ call = None /\ asked = 0 /\ state = "running"

Begin == state = "running" /\ call = None /\ \E e \in Calls : call' = e /\ UNCHANGED <<st, last, asked, state>>
Grant == /\ state = "running" /\ call # None /\ asked < MaxReq /\ MayAsk(call.op, call.s, st)
         /\ asked' = asked + 1 /\ UNCHANGED <<st, last, call, state>>
Refuse == /\ state = "running" /\ call # None /\ MayAsk(call.op, call.s, st)
          /\ state' = "refused" /\ UNCHANGED <<st, last, call, asked>>
Stop == state = "refused" /\ state' = "stopped" /\ UNCHANGED <<st, last, call, asked>>
Return == /\ state = "running" /\ call # None
          /\ \E o \in Outcomes(call, st) : (MustAsk(call, st, o) => asked > 0) /\ st' = o.st
          /\ last' = call /\ call' = None /\ asked' = 0 /\ UNCHANGED state
FNext == Begin \/ Grant \/ Refuse \/ Stop \/ Return
FSpec == FInit /\ [][FNext]_fvars

\* a handle of the default allocator stands for a block which was granted
Backed == LedgerOK(st) /\ WellFormed(st)
\* once a request was refused no call returns and nothing changes any more
Dead == [][state # "running" => st' = st /\ call' = call /\ state' = "stopped"]_fvars
\* a block, or a larger one, is had only by asking
Granted == [][ (st'.live[1] > st.live[1]) => asked > 0 ]_fvars
\* a fixed buffer and the buffers of other allocators are never the reason of a stop
Blame == state = "stopped" => MayAsk(call.op, call.s, st)
\* any request may be the one which is refused
=============================================================================
