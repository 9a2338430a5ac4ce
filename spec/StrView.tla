------------------------------- MODULE StrView -------------------------------
(***************************************************************************)
(* What the functions of strview.h denote, on byte sequences.  Parts of a  *)
(* text are named by 0-based offsets: [o |-> offset, n |-> length]; NoPart *)
(* is the invalid view.                                                    *)
(***************************************************************************)
EXTENDS Bytes

NoPart   == [v |-> FALSE, o |-> 0, n |-> 0]
Part(o, n) == [v |-> TRUE, o |-> o, n |-> n]
Whole(b) == Part(0, Len(b))

\* smallest / largest element of a set of numbers, or d when it is empty
Least(S, d)    == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
Greatest(S, d) == IF S = {} THEN d ELSE -Least({-x : x \in S}, 0)

\* ------------------------------------------------------ delimiter splitting
Quote == 34
RECURSIVE QuotesUpTo(_, _)               \* number of double quotes in the first k bytes
QuotesUpTo(b, k) == IF k = 0 THEN 0 ELSE QuotesUpTo(b, k-1) + (IF b[k] = Quote THEN 1 ELSE 0)

\* first offset >= from of a delimiter outside quotes (inq: a quote is open), or -1
RECURSIVE FirstQuoted(_, _, _, _)
FirstQuoted(b, D, i, inq) ==
  IF i > Len(b) THEN -1
  ELSE IF b[i] = Quote THEN FirstQuoted(b, D, i+1, ~inq)
  ELSE IF ~inq /\ b[i] \in D THEN i - 1
  ELSE FirstQuoted(b, D, i+1, inq)
RECURSIVE LastQuoted(_, _, _, _)
LastQuoted(b, D, i, inq) ==
  IF i < 1 THEN -1
  ELSE IF b[i] = Quote THEN LastQuoted(b, D, i-1, ~inq)
  ELSE IF ~inq /\ b[i] \in D THEN i - 1
  ELSE LastQuoted(b, D, i-1, inq)
FirstDelim(b, D, xq) == IF xq THEN FirstQuoted(b, D, 1, FALSE) ELSE Least({i \in 1..Len(b) : b[i] \in D}, 0) - 1
LastDelim(b, D, xq)  == IF xq THEN LastQuoted(b, D, Len(b), FALSE) ELSE Greatest({i \in 1..Len(b) : b[i] \in D}, 0) - 1

\* [r: the returned part, s: what the source becomes]; dv: the delimiter string is a valid one
SplitFirst(b, D, dv, xq) ==
  LET p == IF dv THEN FirstDelim(b, D, xq) ELSE -1 IN
  IF p < 0 THEN [r |-> Whole(b), s |-> NoPart]
  ELSE [r |-> Part(0, p), s |-> Part(p+1, Len(b)-p-1)]
SplitLast(b, D, dv, xq) ==
  LET p == IF dv THEN LastDelim(b, D, xq) ELSE -1 IN
  IF p < 0 THEN [r |-> Whole(b), s |-> NoPart]
  ELSE [r |-> Part(p+1, Len(b)-p-1), s |-> Part(0, p)]

\* all fields, at most k
RECURSIVE Fields(_, _, _, _, _, _)
Fields(b, D, dv, xq, k, off) ==
  IF k = 0 THEN <<>>
  ELSE LET x == SplitFirst(b, D, dv, xq)
           f == Part(off + x.r.o, x.r.n)
       IN IF ~x.s.v THEN <<f>>
          ELSE <<f>> \o Fields(Drop(b, x.s.o), D, dv, xq, k-1, off + x.s.o)

\* ------------------------------------------------------------ line splitting
CR == 13  LF == 10
Complement(c) == IF c = CR THEN LF ELSE IF c = LF THEN CR ELSE -1

(* One call with end-of-line state e (0: none): the line as a part of b, the *)
(* remainder, the new state; `any' tells that the new state is irrelevant.   *)
SplitLine(b, e) ==
  LET k == IF e # 0 /\ Len(b) > 0 /\ b[1] = Complement(e) THEN 1 ELSE 0
      c == Drop(b, k)
      p == FirstDelim(c, {CR, LF}, FALSE)
  IN IF p < 0 THEN [r |-> NoPart, s |-> Whole(b), e |-> e, any |-> FALSE]
     ELSE LET ch == At(c, p)
              q  == k + p + 1                                  \* offset in b after the ending
              pair == q < Len(b) /\ At(b, q) = Complement(ch)
          IN [r |-> Part(k, p),
              s |-> IF pair THEN Part(q+1, Len(b)-q-1) ELSE Part(q, Len(b)-q),
              e |-> IF pair THEN 0 ELSE ch,
              any |-> ~pair /\ q < Len(b)]

\* the lines of a whole text, and what follows the last line ending
RECURSIVE Lines(_)
Lines(b) == LET x == SplitLine(b, 0) IN
            IF ~x.r.v THEN <<>> ELSE <<Cut(b, x.r.o, x.r.n)>> \o Lines(Drop(b, x.s.o))
RECURSIVE Rest(_)
Rest(b)  == LET x == SplitLine(b, 0) IN IF ~x.r.v THEN b ELSE Rest(Drop(b, x.s.o))
\* the byte which ends the last line ending of b when that ending has two bytes, as a sequence
PairTail(b) == LET n == Len(b) - Len(Rest(b)) IN
               IF n >= 2 /\ b[n-1] \in {CR, LF} /\ b[n] = Complement(b[n-1]) THEN <<b[n]>> ELSE <<>>

\* ------------------------------------------------------------------- search
EqU(a, b, nocase) == IF nocase THEN UpperSeq(a) = UpperSeq(b) ELSE a = b
Occurs(h, x, nocase) ==
  LET H == IF nocase THEN UpperSeq(h) ELSE h
      X == IF nocase THEN UpperSeq(x) ELSE x
  IN {o \in 0..(Len(h) - Len(x)) : Cut(H, o, Len(x)) = X}
Find(h, x, nocase, last) ==
  LET S == Occurs(h, x, nocase) IN
  IF S = {} THEN NoPart ELSE Part(IF last THEN Greatest(S, 0) ELSE Least(S, 0), Len(x))

\* ------------------------------------------------------- comparison
StartsWith(b, x, nocase) == Len(x) <= Len(b) /\ EqU(Take(b, Len(x)), x, nocase)

\* -------------------------------------------------------- index and position
\* i > n etc.: everything; negative: counted from the end
SplitIndexN(n, i) ==
  IF i >= 0 THEN LET k == Min(i, n) IN [r |-> Part(0, k), s |-> Part(k, n-k)]
  ELSE LET k == Max(0, n + i) IN [r |-> Part(k, n-k), s |-> Part(0, k)]
SplitIndex(b, i) == SplitIndexN(Len(b), i)
SubN(n, i, j) ==
  LET x == IF i < 0 THEN n + i ELSE i
      y == IF j < 0 THEN n + j ELSE j
  IN IF x <= y /\ x < n /\ y >= 0 THEN Part(Max(x, 0), Min(y, n) - Max(x, 0)) ELSE NoPart
Sub(b, i, j) == SubN(Len(b), i, j)

\* --------------------------------------------------- trimming and de-quoting
TrimS(b, C) == Least({i \in 1..Len(b) : b[i] \notin C}, Len(b)+1) - 1        \* bytes to drop at the start
TrimE(b, C) == Len(b) - Greatest({i \in 1..Len(b) : b[i] \notin C}, 0)       \* and at the end
Trim(b, C, k) ==     \* k: 0 both, 1 start, 2 end
  LET x == IF k = 2 THEN 0 ELSE TrimS(b, C)
      y == IF k = 1 \/ x = Len(b) THEN 0 ELSE TrimE(b, C)
  IN Part(x, Len(b) - x - y)

RECURSIVE QuoteDepth(_, _)
QuoteDepth(b, q) == IF Len(b) > 1 /\ b[1] = q /\ b[Len(b)] = q THEN 1 + QuoteDepth(SubSeq(b, 2, Len(b)-1), q) ELSE 0
Dequote(b) == IF Len(b) > 1 /\ b[1] \in {34, 39}
              THEN LET d == QuoteDepth(b, b[1]) IN Part(d, Len(b) - 2*d)
              ELSE Whole(b)

\* ----------------------------------------------------------------- C strings
\* what strview_to_cstr writes into n bytes: a prefix of the memory
ToCstr(b, n) == IF n = 0 THEN <<>> ELSE Take(b, Min(Len(b), n-1)) \o <<0>>
=============================================================================
