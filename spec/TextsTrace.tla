----------------------------- MODULE TextsTrace -----------------------------
(* Recorded results of split, the joiners, zipped/enumerated, iota_range and range; every event stands *)
(* alone.                                                                                             *)
EXTENDS Texts, Json, IOUtils
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[k] : k \in DOMAIN s}
\* after the loop every visited element of the first operand was raised by 100
Raised(x, n) == [k \in DOMAIN x |-> IF k <= n THEN x[k] + 100 ELSE x[k]]
EvOK(e) ==
  CASE e.o = "split" -> e.out = Split(e.t, SetOf(e.d), e.skip)
    [] e.o = "tok" -> e.out = Tokens(e.t, SetOf(e.d))
    [] e.o = "join" -> e.out = e.pre \o JoinOr(e.xs, e.del, e.emp)
    [] e.o = "ojoin" -> e.out = Join(e.xs, e.del)
    [] e.o = "zip" -> e.out = Zip(e.xs) /\ e.first = Raised(e.xs[1], ZipLen(e.xs))
    [] e.o = "enum" -> e.out = Enumerate(e.x) /\ e.first = Raised(e.x, Len(e.x))
    [] e.o = "iota" -> e.out = [k \in 1..(e.hi - e.lo) |-> e.lo + k - 1]
    [] e.o = "range" -> e.out = e.x /\ e.n = Len(e.x)
    [] OTHER -> FALSE
Init == i = 1 /\ l = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ LET bad == {k \in DOMAIN Traces[i].ev : ~EvOK(Traces[i].ev[k])} IN
        bad # {} => PrintT(<<"REJ", i, CHOOSE k \in bad : \A m \in bad : k <= m>>)
     /\ i' = i + 1 /\ l' = 0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 0
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
