------------------------------- MODULE TextsMC ------------------------------
(* A splitter that reads one character at a time equals Split on every text up to a length; laws.      *)
EXTENDS Texts
CONSTANTS MaxLen
VARIABLES t, done, cur
vars == <<t, done, cur>>
Alpha == {97, 44, 59, 98}
D == {44, 59}
Init == t = <<>> /\ done = <<>> /\ cur = <<>>
Read(c) == /\ Len(t) < MaxLen /\ t' = Append(t, c)
           /\ IF c \in D THEN done' = Append(done, cur) /\ cur' = <<>> ELSE cur' = Append(cur, c) /\ UNCHANGED done
Next == \E c \in Alpha : Read(c)
Spec == Init /\ [][Next]_vars
Streams == Tokens(t, D) = done \o (IF cur = <<>> THEN <<>> ELSE <<cur>>)
NoDelims == \A p \in {Tokens(t, D)[k] : k \in DOMAIN Tokens(t, D)} : \A k \in DOMAIN p : p[k] \notin D
Skips == Split(t, D, TRUE) = SelectSeq(Split(t, D, FALSE), LAMBDA p : p # <<>>)
\* with one delimiter a full split can be joined again, up to one final delimiter
Restores == LET s == Split(t, {44}, FALSE) IN Join(s, <<44>>) = (IF t # <<>> /\ t[Len(t)] = 44 THEN SubSeq(t, 1, Len(t) - 1) ELSE t)
Chars == LET s == Split(t, D, TRUE) IN Join(s, <<>>) = SelectSeq(t, LAMBDA c : c \notin D)
ZipLaws == LET z == Zip(<<t, cur>>) IN Len(z) = ZipLen(<<t, cur>>) /\ Len(z) <= Len(t) /\ Len(z) <= Len(cur)
              /\ \A k \in DOMAIN z : z[k] = <<t[k], cur[k]>>
=============================================================================
