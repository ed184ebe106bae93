-------------------------------- MODULE Path --------------------------------
(* Resource paths: text (a sequence of bytes) to a sequence of segments.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slash == 47
Dot == 46
Pct == 37

\* ---------------------------------------------------------------- pieces between slashes
RECURSIVE Split(_, _)
Split(t, acc) == IF t = <<>> THEN <<acc>>
                 ELSE IF Head(t) = Slash THEN <<acc>> \o Split(Tail(t), <<>>)
                 ELSE Split(Tail(t), Append(acc, Head(t)))
Pieces(t) == Split(t, <<>>)

\* ---------------------------------------------------------------- percent decoding
Hex(c) == IF c >= 48 /\ c <= 57 THEN c - 48
          ELSE IF c >= 65 /\ c <= 70 THEN c - 55
          ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE Decode(_)
\* <<TRUE, bytes>>, or <<FALSE>> for a malformed escape or an encoded slash
Decode(t) ==
  IF t = <<>> THEN <<TRUE, <<>> >>
  ELSE IF Head(t) # Pct THEN LET r == Decode(Tail(t)) IN IF r[1] THEN <<TRUE, <<Head(t)>> \o r[2]>> ELSE r
  ELSE IF Len(t) < 3 THEN <<FALSE>>
  ELSE IF Hex(t[2]) < 0 \/ Hex(t[3]) < 0 THEN <<FALSE>>
  ELSE IF 16 * Hex(t[2]) + Hex(t[3]) = Slash THEN <<FALSE>>
  ELSE LET r == Decode(SubSeq(t, 4, Len(t))) IN IF r[1] THEN <<TRUE, <<16 * Hex(t[2]) + Hex(t[3])>> \o r[2]>> ELSE r

\* ---------------------------------------------------------------- parsing
Up(segs) == IF segs = <<>> THEN <<>> ELSE SubSeq(segs, 1, Len(segs) - 1)
Here(p) == p = <<>> \/ p = <<Dot>>
Parent(p) == p = <<Dot, Dot>>
RECURSIVE Walk(_, _)
Walk(ps, segs) ==
  IF ps = <<>> THEN <<TRUE, segs>>
  ELSE LET p == Head(ps) IN
       IF Here(p) THEN Walk(Tail(ps), segs)
       ELSE IF Parent(p) THEN Walk(Tail(ps), Up(segs))
       ELSE LET d == Decode(p) IN IF d[1] THEN Walk(Tail(ps), Append(segs, d[2])) ELSE <<FALSE>>
\* <<TRUE, segments>> or <<FALSE>>
Parse(t) == Walk(Pieces(t), <<>>)

\* ---------------------------------------------------------------- the other direction
RECURSIVE Join(_)
Join(segs) == IF segs = <<>> THEN <<>> ELSE IF Len(segs) = 1 THEN segs[1] ELSE segs[1] \o <<Slash>> \o Join(Tail(segs))
From(segs, k) == SubSeq(segs, k + 1, Len(segs))
Joined(segs, k) == Join(From(segs, k))
\* a view: the path and how many segments were dropped at either end
View(segs, a, b) == SubSeq(segs, a + 1, Len(segs) - b)
Prefix(segs, a, k) == IF k = 0 THEN <<>> ELSE Join(SubSeq(segs, 1, a + k))
Plain(p) == ~Here(p) /\ ~Parent(p) /\ \A i \in DOMAIN p : p[i] \notin {Slash, Pct}
=============================================================================
