-------------------------------- MODULE Texts -------------------------------
(* Splitting, joining and zipping sequences; texts are sequences of bytes.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the pieces between elements of D; nothing follows a final delimiter
RECURSIVE Tokens(_, _)
Tokens(t, D) ==
  IF t = <<>> THEN <<>>
  ELSE IF \A k \in DOMAIN t : t[k] \notin D THEN <<t>>
  ELSE LET k == CHOOSE k \in DOMAIN t : t[k] \in D /\ \A m \in 1..(k - 1) : t[m] \notin D
       IN <<SubSeq(t, 1, k - 1)>> \o Tokens(SubSeq(t, k + 1, Len(t)), D)
Split(t, D, skip) == IF skip THEN SelectSeq(Tokens(t, D), LAMBDA p : p # <<>>) ELSE Tokens(t, D)
RECURSIVE Join(_, _)
Join(xs, d) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o d \o Join(Tail(xs), d)
JoinOr(xs, d, empty) == IF xs = <<>> THEN empty ELSE Join(xs, d)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* xs: a sequence of sequences; up to the shortest
ZipLen(xs) == Min({Len(xs[k]) : k \in DOMAIN xs})
Zip(xs) == [j \in 1..ZipLen(xs) |-> [k \in DOMAIN xs |-> xs[k][j]]]
Enumerate(x) == [j \in DOMAIN x |-> <<j - 1, x[j]>>]
=============================================================================
