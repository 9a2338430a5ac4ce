------------------------------- MODULE MC_Line -------------------------------
(***************************************************************************)
(* A reader receives a text in chunks and repeatedly splits lines off what *)
(* it holds, keeping the end-of-line state between calls.  Whatever the    *)
(* text and the chunking, it gets the lines of the whole text (V03).       *)
(* With Emit every (text, chunking) is printed and then streamed through   *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS StrView, Json

CONSTANTS Alphabet, MaxLen, Emit

VARIABLES txt, pos, buf, e, got, ch, end
vars == <<txt, pos, buf, e, got, ch, end>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

Init == txt \in Texts /\ pos = 0 /\ buf = <<>> /\ e = 0 /\ got = <<>> /\ ch = <<>> /\ end = FALSE

X == SplitLine(buf, e)

Split == /\ X.r.v
         /\ got' = Append(got, Cut(buf, X.r.o, X.r.n))
         /\ buf' = Drop(buf, X.s.o)
         /\ e' \in {X.e} \cup (IF X.any THEN {0} ELSE {})
         /\ UNCHANGED <<txt, pos, ch, end>>

Feed == /\ ~X.r.v                         \* the reader asks for more when there is no complete line
        /\ pos < Len(txt)
        /\ \E n \in 1..(Len(txt) - pos) :
             /\ buf' = buf \o Cut(txt, pos, n)
             /\ pos' = pos + n
             /\ ch' = Append(ch, Cut(txt, pos, n))
        /\ UNCHANGED <<txt, e, got, end>>

Finish == /\ ~end /\ ~X.r.v /\ pos = Len(txt) /\ end' = TRUE
          /\ UNCHANGED <<txt, pos, buf, e, got, ch>>
          /\ IF Emit THEN PrintT(ToJson(<<"S", ch>>)) ELSE TRUE

Next == Split \/ Feed \/ Finish
Spec == Init /\ [][Next]_vars

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a

\* never a line that the whole text does not have, never one out of order
Sound == IsPrefixOf(got, Lines(txt))
\* nothing is lost: at the end all lines were delivered and only the unfinished rest is held
Complete == end => got = Lines(txt) /\ buf \in {Rest(txt), PairTail(txt) \o Rest(txt)}
\* when there is no complete line, the call changes nothing
Quiet == ~X.r.v => X.s = Whole(buf) /\ X.e = e
\* each line ending counts once: independent definition by the number of endings
RECURSIVE Endings(_)
Endings(b) == IF Len(b) = 0 THEN 0
              ELSE IF b[1] \in {CR, LF}
                   THEN 1 + (IF Len(b) > 1 /\ b[2] = Complement(b[1]) THEN Endings(Drop(b, 2)) ELSE Endings(Drop(b, 1)))
                   ELSE Endings(Drop(b, 1))
Counts == Len(Lines(txt)) = Endings(txt)
NoEol  == \A i \in 1..Len(got) : \A j \in 1..Len(got[i]) : got[i][j] \notin {CR, LF}
=============================================================================
