------------------------------ MODULE HashTrace ------------------------------
(* Recorded results of kl::hash, at run time and at compile time, against Hash; every event stands alone. *)
EXTENDS Hash, TLC, Json, IOUtils
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
EvOK(e) ==
  CASE e.o = "fnv" -> e.h = Fnv1a(e.in)
    [] e.o = "hsieh" -> e.h = Hsieh(e.in)
    [] e.o = "nonul" -> e.threw
    [] e.o = "switch" -> e.hit = (CHOOSE k \in 0..Len(e.cases) : IF \E j \in DOMAIN e.cases : e.cases[j] = e.in THEN k > 0 /\ e.cases[k] = e.in ELSE k = 0)
    [] OTHER -> FALSE
Init == i = 1 /\ l = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ LET bad == {k \in DOMAIN Traces[i].ev : ~EvOK(Traces[i].ev[k])} IN
        bad # {} => PrintT(<<"REJ", i, CHOOSE k \in bad : \A m \in bad : k <= m>>)
     /\ i' = i + 1 /\ l' = 0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 0
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
