------------------------------ MODULE MC_Digits ------------------------------
(***************************************************************************)
(* Decimal digits accumulated in three registers of growing width, as the  *)
(* library does (narrow arithmetic first, the last register checked at     *)
(* every step): a refinement of Magnitude with widths scaled down so that  *)
(* every digit string up to MaxLen can be explored.  M1 <= M2 <= M3 are    *)
(* the largest values of the registers.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS M1, M2, M3, MaxLen
VARIABLES in, pos, reg, acc, err
vars == <<in, pos, reg, acc, err>>

Limit(m) == IF m \div 10 > 9 THEN m \div 10 - 9 ELSE 0
RECURSIVE Val(_, _)
Val(s, n) == IF n = 0 THEN 0 ELSE Val(s, n - 1) * 10 + s[n]

Init == in \in UNION {[1..n -> 0..9] : n \in 1..MaxLen} /\ pos = 0 /\ reg = 1 /\ acc = 0 /\ err = FALSE
More == pos < Len(in)
Narrow == /\ reg \in {1, 2} /\ More /\ acc < Limit(IF reg = 1 THEN M1 ELSE M2)
          /\ acc' = acc * 10 + in[pos + 1] /\ pos' = pos + 1 /\ UNCHANGED <<in, reg, err>>
Widen  == /\ reg \in {1, 2} /\ ~(More /\ acc < Limit(IF reg = 1 THEN M1 ELSE M2))
          /\ reg' = reg + 1 /\ UNCHANGED <<in, pos, acc, err>>
Wide   == /\ reg = 3 /\ More /\ ~err
          /\ IF acc > M3 \div 10 THEN err' = TRUE /\ UNCHANGED <<acc, pos>>
             ELSE LET next == acc * 10  sum == (next + in[pos + 1]) % (M3 + 1) IN     \* the register wraps
                  IF sum < next THEN err' = TRUE /\ UNCHANGED <<acc, pos>>
                  ELSE acc' = sum /\ pos' = pos + 1 /\ UNCHANGED err
          /\ UNCHANGED <<in, reg>>
Next == Narrow \/ Widen \/ Wide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == reg = 3 /\ (err \/ ~More)
NoWrap == acc <= (IF reg = 1 THEN M1 ELSE IF reg = 2 THEN M2 ELSE M3)
Prefix == ~err => acc = Val(in, pos)
Exact  == Done => (err <=> Val(in, Len(in)) > M3)
Ends   == <>Done
=============================================================================
