------------------------------ MODULE BinRWMC ------------------------------
(* Laws of the cursor and of the encoding, for every buffer up to a length over a small alphabet and  *)
(* every sequence of operations.                                                                      *)
EXTENDS BinRW
CONSTANTS MaxLen, MaxOps
VARIABLES s, prev, n
Alpha == {0, 1, 2, 3}
T1 == Vec(Opt(Num(1)))
T2 == Var(<<Num(2), Text, Map(Num(1), Num(1))>>)
Ts == {T1, T2, Rec(<<Opt(Text), Num(1)>>), Set(Big(2)), Vec(Vec(Num(1)))}
Bufs == UNION {[1..k -> Alpha] : k \in 0..MaxLen}
Init == n = 0 /\ \E b \in Bufs : s = [b |-> b, p |-> 0, e |-> FALSE] /\ prev = s
Step(t) == n < MaxOps /\ n' = n + 1 /\ prev' = s /\ s' = t
Next == \/ \E k \in -3..3 : Step(Skip(s, k))
        \/ \E k \in 0..3 : Step(Take(s, k))
        \/ \E x \in {<<>>, <<7>>, <<7, 7>>} : Step(Put(s, x))
        \/ Step(Fail(s))
Spec == Init /\ [][Next]_<<s, prev, n>>
Inside == s.p >= 0 /\ s.p <= Len(s.b) /\ Left(s) >= 0
Sticky == prev.e => s.e /\ s.p = prev.p /\ s.b = prev.b
FailKeeps == s.e => s.p = prev.p /\ s.b = prev.b
OnlyWindow == \A k \in DOMAIN s.b : (k <= prev.p \/ k > s.p) => s.b[k] = prev.b[k]
\* whatever decodes consumes at least what its encoding takes, and re-decodes to itself from its encoding
Canonical == n = 0 => \A T \in Ts : LET r == Dec(T, s.b, 0) IN
               r[1] => /\ r[3] <= Len(s.b)
                       /\ LET c == Enc(T, r[2]) IN LET q == Dec(T, c, 0) IN q[1] /\ Same(T, q[2], r[2]) /\ q[3] = Len(c) /\ Len(c) <= r[3]
\* a strict prefix of an encoding never decodes, trailing bytes are left alone
PrefixFree == n = 0 => \A T \in Ts : LET r == Dec(T, s.b, 0) IN
               r[1] => \A k \in 0..(r[3] - 1) : ~Dec(T, SubSeq(s.b, 1, k), 0)[1]
=============================================================================
