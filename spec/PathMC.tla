------------------------------- MODULE PathMC -------------------------------
(* A left-to-right parser that keeps one joined buffer and (offset, length) pairs - the representation *)
(* an implementation would use - refines Parse for every text up to a length; laws of Parse itself.    *)
EXTENDS Path
CONSTANTS Alpha, MaxLen
VARIABLES t,        \* text consumed
          cur,      \* raw bytes of the segment being read
          val, off, \* joined decoded text and the segments in it
          bad
vars == <<t, cur, val, off, bad>>
Init == t = <<>> /\ cur = <<>> /\ val = <<>> /\ off = <<>> /\ bad = FALSE
Pop(v, o) == IF o = <<>> THEN <<v, o>>
             ELSE LET at == o[Len(o)][1] IN <<SubSeq(v, 1, IF at = 0 THEN 0 ELSE at - 1), SubSeq(o, 1, Len(o) - 1)>>
Push(v, o, d) == LET w == IF v = <<>> THEN v ELSE Append(v, Slash) IN <<w \o d, Append(o, <<Len(w), Len(d)>>)>>
\* what closing the current segment makes of buffer and segments
Close == IF bad \/ Here(cur) THEN <<val, off, bad>>
         ELSE IF Parent(cur) THEN Pop(val, off) \o <<bad>>
         ELSE LET d == Decode(cur) IN IF d[1] THEN Push(val, off, d[2]) \o <<bad>> ELSE <<val, off, TRUE>>
Read(c) == /\ Len(t) < MaxLen /\ t' = Append(t, c)
           /\ IF c = Slash THEN cur' = <<>> /\ val' = Close[1] /\ off' = Close[2] /\ bad' = Close[3]
              ELSE cur' = Append(cur, c) /\ UNCHANGED <<val, off, bad>>
Next == \E c \in Alpha : Read(c)
Spec == Init /\ [][Next]_vars
Segs(v, o) == [i \in DOMAIN o |-> SubSeq(v, o[i][1] + 1, o[i][1] + o[i][2])]
Result == IF Close[3] THEN <<FALSE>> ELSE <<TRUE, Segs(Close[1], Close[2])>>
Refines == Result = Parse(t)
BufferIsJoin == ~Close[3] => Close[1] = Join(Segs(Close[1], Close[2]))
\* segments are never empty and never contain a slash: nothing can climb or smuggle a separator
SegsOK == LET r == Parse(t) IN r[1] => \A i \in DOMAIN r[2] : r[2][i] # <<>> /\ \A k \in DOMAIN r[2][i] : r[2][i][k] # Slash
\* leading parent steps have no effect; a trailing one removes exactly one segment; slashes are free
Root == Parse(<<Dot, Dot, Slash>> \o t) = Parse(t) /\ Parse(<<Slash>> \o t) = Parse(t) /\ Parse(Append(t, Slash)) = Parse(t)
UpOne == LET r == Parse(t) IN r[1] => Parse(t \o <<Slash, Dot, Dot>>) = <<TRUE, Up(r[2])>>
\* joining plain segments and parsing again gives the same path
Again == LET r == Parse(t) IN r[1] /\ (\A i \in DOMAIN r[2] : Plain(r[2][i])) => Parse(Join(r[2])) = r
\* an escaped dot never navigates
Depth == LET r == Parse(t) IN r[1] => Len(r[2]) <= Cardinality({i \in DOMAIN t : t[i] = Slash}) + 1
=============================================================================
