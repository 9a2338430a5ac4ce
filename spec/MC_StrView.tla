----------------------------- MODULE MC_StrView -----------------------------
(***************************************************************************)
(* Every call of the chosen view operations on every text up to MaxLen     *)
(* over a small alphabet.  The laws state what the operations mean without *)
(* reference to how StrView computes them; with Emit every call is printed *)
(* and then made on the real code.                                         *)
(***************************************************************************)
EXTENDS StrView, Json

CONSTANTS Group, Alphabet, MaxLen, ArgLen, Emit

VARIABLES txt, c, done
vars == <<txt, c, done>>

TextsUpTo(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Balanced(b) == QuotesUpTo(b, Len(b)) % 2 = 0

C(op, a, k, i, j) == [op |-> op, a |-> a, k |-> k, i |-> i, j |-> j]
NoArg == <<-1>>                          \* stands for an invalid argument
Delims == {<<>>, <<44>>, <<44, 97>>, NoArg}
I4 == -(MaxLen+2)..(MaxLen+2)

Calls(t) ==
  CASE Group = "split" ->
         {C(op, d, xq, n, 0) : op \in {"first", "last", "all"}, d \in Delims, xq \in {0, 1}, n \in 1..3}
    [] Group = "find"  -> {C("find", a, k, 0, 0) : a \in TextsUpTo(ArgLen), k \in 0..3}
                          \cup {C("contains", a, k, 0, 0) : a \in TextsUpTo(ArgLen), k \in {0, 1}}
    [] Group = "cmp"   -> {C(op, a, k, 0, 0) : op \in {"match", "starts"}, a \in TextsUpTo(ArgLen) \cup {NoArg}, k \in {0, 1}}
                          \cup {C("cmp", a, 0, 0, 0) : a \in TextsUpTo(ArgLen) \cup {NoArg}}
    [] Group = "index" -> {C("sub", <<>>, 0, i, j) : i \in I4, j \in I4} \cup {C("splitidx", <<>>, 0, i, 0) : i \in I4}
                          \cup {C("pop", <<>>, 0, 0, 0)}
                          \* a position [i, j) of the text, and a source [o, o+n) narrowed within it
                          \cup {C(op, <<o, n>>, 0, i, j) : op \in {"left", "right"}, i \in 0..Len(t), j \in 0..Len(t), o \in 0..Len(t), n \in 0..Len(t)}
    [] Group = "trim"  -> {C("trim", a, k, 0, 0) : a \in {<<>>, <<97>>, <<98>>, <<97, 98>>, NoArg}, k \in 0..2}
    [] Group = "quote" -> {C("dequote", <<>>, 0, 0, 0)}
    [] Group = "cstr"  -> {C("tocstr", <<>>, 0, n, 0) : n \in 0..(MaxLen+2)} \cup {C("cstr", <<>>, 0, 0, 0)}

Legal(t, x) == /\ x.op \in {"last", "all", "first"} => (x.k = 1 => Balanced(t)) /\ (x.op # "all" => x.i = 1)
               /\ x.op \in {"left", "right"} => x.i + x.j <= Len(t) /\ x.a[1] + x.a[2] <= Len(t)

Init == txt \in TextsUpTo(MaxLen) /\ c \in Calls(txt) /\ Legal(txt, c) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<txt, c>>
        /\ IF Emit THEN PrintT(ToJson(<<"C", txt, c>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------- laws
P(p) == Cut(txt, p.o, p.n)
DelimSet == IF c.a = NoArg THEN {} ELSE RangeOf(c.a)
Outside(b, i) == c.k = 0 \/ QuotesUpTo(b, i) % 2 = 0           \* byte i (1-based) is not within quotes
Cuts == {i \in 1..Len(txt) : txt[i] \in DelimSet /\ txt[i] # Quote /\ Outside(txt, i)}
SplitLaw ==
  c.op \in {"first", "last"} =>
    LET x == IF c.op = "first" THEN SplitFirst(txt, DelimSet, c.a # NoArg, c.k = 1) ELSE SplitLast(txt, DelimSet, c.a # NoArg, c.k = 1)
        at == IF c.op = "first" THEN Least(Cuts, 0) ELSE Greatest(Cuts, 0)
    IN IF Cuts = {} THEN P(x.r) = txt /\ x.s = NoPart
       ELSE /\ x.r.v /\ x.s.v
            /\ (IF c.op = "first" THEN P(x.r) \o <<txt[at]>> \o P(x.s) ELSE P(x.s) \o <<txt[at]>> \o P(x.r)) = txt
            /\ Len(IF c.op = "first" THEN P(x.r) ELSE P(x.s)) = at - 1
FieldsLaw ==
  c.op = "all" =>
    LET f == Fields(txt, DelimSet, c.a # NoArg, c.k = 1, 100, 0)
        g == Fields(txt, DelimSet, c.a # NoArg, c.k = 1, c.i, 0)
    IN /\ Len(f) = Cardinality(Cuts) + 1
       /\ \A i \in 1..(Len(f)-1) : f[i+1].o = f[i].o + f[i].n + 1 /\ (f[i+1].o) \in Cuts
       /\ f[1].o = 0 /\ f[Len(f)].o + f[Len(f)].n = Len(txt)
       /\ g = Take(f, Min(c.i, Len(f)))
Eq(a, b) == IF c.k \in {0, 2} THEN a = b ELSE UpperSeq(a) = UpperSeq(b)
FindLaw ==
  c.op = "find" =>
    LET x == Find(txt, c.a, c.k \in {1, 3}, c.k \in {2, 3})
        pre(o) == \E u, w \in 0..Len(txt) : u + Len(c.a) + w = Len(txt) /\ u = o /\ Eq(SubSeq(txt, u+1, u+Len(c.a)), c.a)
        occ == {o \in 0..Len(txt) : pre(o)}
    IN IF occ = {} THEN ~x.v
       ELSE x.v /\ x.o \in occ /\ x.n = Len(c.a) /\ \A o \in occ : IF c.k < 2 THEN x.o <= o ELSE x.o >= o
CmpLaw ==
  c.op = "cmp" =>
    LET b == IF c.a = NoArg THEN <<>> ELSE c.a  r == CmpSeq(txt, b) IN
    /\ r \in {-1, 0, 1} /\ CmpSeq(b, txt) = -r
    /\ (r = 0) <=> (txt = b)
    /\ (Len(txt) < Len(b) /\ Take(b, Len(txt)) = txt) => r = -1
    /\ \A z \in TextsUpTo(2) : r >= 0 /\ CmpSeq(b, z) >= 0 => CmpSeq(txt, z) >= 0
StartsLaw ==
  c.op = "starts" /\ c.a # NoArg => (StartsWith(txt, c.a, c.k = 1) <=> \E n \in 0..Len(txt) : n = Len(c.a) /\ EqU(SubSeq(txt, 1, n), c.a, c.k = 1))
SubLaw ==
  c.op = "sub" =>
    LET x == Sub(txt, c.i, c.j)  n == Len(txt) IN
    /\ x.v => x.o >= 0 /\ x.n >= 0 /\ x.o + x.n <= n
    /\ (c.i >= 0 /\ c.i <= c.j /\ c.j <= n /\ c.i < n) => x = Part(c.i, c.j - c.i)
    /\ (c.i < 0 /\ c.i >= -n) => x = Sub(txt, n + c.i, c.j)
    /\ (c.j < 0 /\ c.j >= -n) => x = Sub(txt, c.i, n + c.j)
SplitIdxLaw ==
  c.op = "splitidx" =>
    LET x == SplitIndex(txt, c.i) IN
    /\ (IF c.i >= 0 THEN P(x.r) \o P(x.s) ELSE P(x.s) \o P(x.r)) = txt
    /\ x.r.n = Min(IF c.i < 0 THEN -c.i ELSE c.i, Len(txt))
TrimLaw ==
  c.op = "trim" =>
    LET S == DelimSet  x == Trim(txt, S, c.k) IN
    /\ x.o >= 0 /\ x.n >= 0 /\ x.o + x.n <= Len(txt)
    /\ \A i \in 1..x.o : txt[i] \in S
    /\ \A i \in (x.o + x.n + 1)..Len(txt) : txt[i] \in S
    /\ x.n > 0 => (c.k \in {0, 1} => txt[x.o + 1] \notin S) /\ (c.k \in {0, 2} => txt[x.o + x.n] \notin S)
    /\ c.k = 1 => x.o + x.n = Len(txt)
    /\ c.k = 2 => x.o = 0
DequoteLaw ==
  c.op = "dequote" =>
    LET x == Dequote(txt)  d == x.o  q == IF Len(txt) > 0 THEN txt[1] ELSE 0 IN
    /\ txt = Rep(q, d) \o P(x) \o Rep(q, d)
    /\ d > 0 => q \in {34, 39}
    /\ ~(x.n > 1 /\ P(x)[1] = P(x)[x.n] /\ P(x)[1] \in {34, 39} /\ (d = 0 \/ P(x)[1] = q))
CstrLaw ==
  c.op = "tocstr" =>
    LET w == ToCstr(txt, c.i) IN
    /\ Len(w) <= c.i
    /\ c.i > 0 => w[Len(w)] = 0 /\ Take(w, Len(w)-1) = Take(txt, Len(w)-1) /\ (Len(w) - 1 = Len(txt) \/ Len(w) = c.i)
=============================================================================
