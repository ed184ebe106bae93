--------------------------- MODULE BuildersTrace ---------------------------
(* Recorded building, extraction and lookup sessions against Builders; every event stands alone.       *)
EXTENDS Builders, Json, IOUtils
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* a failure names where it happened
ResOK(T, j, where, got) ==
  LET r == Decode(T, j, Default(T)) IN
  IF r[1] THEN got[1] = TRUE /\ Len(got) = 2 /\ SameV(T, r[2], got[2])
  ELSE got[1] = FALSE /\ (where = "" \/ got[2] = <<"*">> \/ \E k \in DOMAIN got[2] : got[2][k] = where)
RECURSIVE SeqOK(_, _, _, _)
SeqOK(j, xs, k, p) ==
  IF k > Len(xs) THEN TRUE
  ELSE LET T == BTypes[xs[k][2]]
           q == IF xs[k][1] < 0 THEN p ELSE xs[k][1]
       IN ResOK(T, Elem(j, q), ToString(q), xs[k][3]) /\ SeqOK(j, xs, k + 1, Advance(j, T, q))
Word(n) == IF n \in {"e e"} THEN "e" ELSE n
EvOK(e) ==
  CASE e.o = "build" -> Built(e.arr, e.items, e.r)
    [] e.o = "take" -> /\ e.kept
                       /\ e.ok = (e.j[1] = (IF e.arr THEN "a" ELSE "m"))
                       /\ e.ok => IF e.arr THEN SeqOK(e.j, e.x, 1, 0)
                                  ELSE \A k \in DOMAIN e.x : ResOK(BTypes[e.x[k][2]], Under(e.j, e.x[k][1]), Word(e.x[k][1]), e.x[k][3])
    [] e.o = "look" -> /\ e.kept
                       /\ \A k \in DOMAIN e.x : e.x[k][2] = (IF e.arr THEN Elem(e.j, e.x[k][1]) ELSE Under(e.j, e.x[k][1]))
    [] OTHER -> FALSE
Init == i = 1 /\ l = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ LET bad == {k \in DOMAIN Traces[i].ev : ~EvOK(Traces[i].ev[k])} IN
        bad # {} => PrintT(<<"REJ", i, CHOOSE k \in bad : \A m \in bad : k <= m>>)
     /\ i' = i + 1 /\ l' = 0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 0
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
