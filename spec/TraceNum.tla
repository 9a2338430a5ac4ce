------------------------------ MODULE TraceNum ------------------------------
(***************************************************************************)
(* Trace validation of the strnum.h family.  State: the text, and the      *)
(* source view as [k, o, n] (k = 1: at offset o of the text, n bytes;      *)
(* k = 0: the invalid view), or absent altogether.                         *)
(***************************************************************************)
EXTENDS StrNum, Json, IOUtils

CONSTANT Prop

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, txt, src, absent, bad
vars == <<h, l, txt, src, absent, bad>>

Inv == <<0, 0, 0>>
Pre == 92                      \* the destination's previous bytes
Floats == {"float", "double", "ldouble"}
Signed == {"char", "short", "int", "long", "llong", "i8", "i16", "i32", "i64"}
Width(fn) == CASE fn \in {"char", "uchar", "i8", "u8"} -> 1
               [] fn \in {"short", "ushort", "i16", "u16"} -> 2
               [] fn \in {"int", "uint", "i32", "u32", "float"} -> 4
               [] fn \in {"long", "ulong", "llong", "ullong", "i64", "u64", "double"} -> 8
               [] fn = "ldouble" -> 10

T(c, tag) == IF c THEN {} ELSE {tag}
Text == IF src[1] = 1 THEN Cut(txt, src[2], src[3]) ELSE <<>>
Untouched(D) == \A i \in 1..Len(D) : D[i] = Pre
\* the source after n bytes were consumed; a source consumed to the end may be reported as invalid
SrcOk(S, n) == \/ S = <<1, src[2] + n, src[3] - n>>
               \/ n = src[3] /\ S = Inv

NumTags(ev) ==
  LET fl == ev.fn \in Floats
      ok == ~absent /\ src[1] = 1
      r == IF ~ok THEN [e |-> {1}]
           ELSE IF fl THEN FloatConv(Text, ev.o, ev.fn)
           ELSE LET q == IntConv(Text, ev.o, Width(ev.fn), ev.fn \in Signed) IN [e |-> {q.e}, n |-> q.n, D |-> q.D]
  IN IF ev.e # 0
     THEN T(Untouched(ev.D) /\ ev.S = src, "frame") \cup T(ev.m = 1, "mem")
          \cup (IF ev.e \in r.e THEN {} ELSE IF ~ok THEN {"nosrc"} ELSE IF ev.e = 1 \/ r.e = {1} THEN {"syntax"} ELSE {"range"})
     ELSE IF 0 \notin r.e THEN {IF ~ok THEN "nosrc" ELSE IF r.e = {1} THEN "syntax" ELSE "range"} \cup T(ev.m = 1, "mem")
                               \cup (IF ok /\ r.e = {2} /\ "n" \in DOMAIN r THEN T(SrcOk(ev.S, r.n), "src") ELSE {})
     ELSE T(SrcOk(ev.S, r.n), "src") \cup T(ev.m = 1, "mem")
          \cup (IF ev.dst = 0 THEN T(Untouched(ev.D), "frame")
                ELSE IF ~fl THEN T(ev.D = r.D, IF ev.o = 0 THEN "val" ELSE "valo")
                ELSE LET c == Decode(ev.fn, ev.D) IN T(ClassOk(r, c), IF r.k = "fin" /\ c.k # "fin" THEN "val" ELSE "cls") \cup T(ValueOk(ev.fn, r, c), "val"))

ValTags(ev) ==
  LET fl == ev.fn \in Floats  w == Width(ev.fn)  df == SubSeq(ev.df, 1, w)
      r == IF src[1] # 1 THEN [e |-> {1}]
           ELSE IF fl THEN FloatConv(Text, ev.o, ev.fn)
           ELSE LET q == IntConv(Text, ev.o, w, ev.fn \in Signed) IN [e |-> {q.e}, n |-> q.n, D |-> q.D]
      good == 0 \in r.e /\ (IF ~fl THEN ev.D = r.D ELSE LET c == Decode(ev.fn, ev.D) IN ClassOk(r, c) /\ ValueOk(ev.fn, r, c))
      dflt == r.e # {0} /\ ev.D = df
  IN T(good \/ dflt, "val") \cup T(ev.S = src /\ ev.m = 1, "frame")

Owns(p, op, fn, g) ==
  LET fl == fn \in Floats IN
  CASE p = "ANY" -> TRUE
    [] op = "val" -> p = "N05"
    [] op = "end" -> FALSE
    [] p = "N01" -> ~fl /\ g \in {"val", "valo", "range", "syntax", "crash", "hang"}
    [] p = "N02" -> g \in {"frame", "nosrc", "mem"}
    [] p = "N03" -> ~fl /\ g \in {"syntax", "src", "valo", "crash", "hang"}
    [] p = "N04" -> fl /\ g \in {"syntax", "src", "cls", "crash", "hang"}
    [] p = "N06" -> fl /\ g \in {"val", "range", "crash", "hang"}
    [] OTHER -> FALSE
Fn(ev) == IF "fn" \in DOMAIN ev THEN ev.fn ELSE "-"
Mark(ev, tags) == {<<ev.op, g, Owns(Prop, ev.op, Fn(ev), g)>> : g \in tags}

Ev == Hist[h].ev[l]
Init == h \in 1..Len(Hist) /\ l = 1 /\ txt = <<>> /\ src = Inv /\ absent = FALSE /\ bad = {}

StepEv ==
  LET ev == Ev IN
  IF "x_" \in DOMAIN ev
  THEN /\ bad' = Mark(ev, {IF ev.x_ = 2 THEN "hang" ELSE "crash"})
       /\ UNCHANGED <<txt, src, absent>>
  ELSE CASE ev.op = "src" ->
              /\ txt' = ev.b /\ src' = (IF ev.k = 0 THEN <<1, 0, Len(ev.b)>> ELSE Inv) /\ absent' = (ev.k = 2)
              /\ bad' = {}
         [] ev.op = "skip" ->
              /\ src' = (IF src[1] = 1 THEN <<1, src[2] + ev.i, src[3] - ev.i>> ELSE src)
              /\ UNCHANGED <<txt, absent, bad>>
         [] ev.op = "num" ->
              /\ bad' = Mark(ev, NumTags(ev))
              /\ src' = ev.S /\ UNCHANGED <<txt, absent>>
         [] ev.op = "val" ->
              /\ bad' = Mark(ev, ValTags(ev))
              /\ UNCHANGED <<txt, src, absent>>
         [] ev.op = "end" -> UNCHANGED <<txt, src, absent, bad>>
         [] OTHER -> bad' = Mark(ev, {"unknown"}) /\ UNCHANGED <<txt, src, absent>>

Next == /\ bad = {}
        /\ l <= Len(Hist[h].ev)
        /\ StepEv
        /\ l' = l + 1
        /\ h' = h
        /\ (bad' = {} \/ PrintT(<<"MISMATCH", h, l, bad'>>))
Spec == Init /\ [][Next]_vars
Conforms == \A t \in bad : t[3] = FALSE
Progress == <<h, l, bad>>
Shown == [h |-> h, l |-> l, bad |-> bad]      \* of a state in an error trace
=============================================================================
