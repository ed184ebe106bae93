----------------------------- MODULE ViewsTrace -----------------------------
(* Recorded histories of views against Views.tla.  A trace has documents t.docs and events; every     *)
(* event shows all documents and what every view denotes afterwards.                                  *)
EXTENDS Views, Json, IOUtils, TLC
VARIABLES i, l, s, q
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == 4                                               \* named views; 1 and 2 are the members of the struct
Fresh == [k \in 1..N |-> Null]
Node(t, e) == At(t.docs[e.d], e.p)
\* <<accepted, named views, list of views>> after the event
Step(t, e) ==
  CASE e.o = "bind" -> <<TRUE, [s EXCEPT ![e.v] = Node(t, e)], q>>
    [] e.o = "struct" -> LET j == Node(t, e) IN
         IF StructOK(j) THEN <<TRUE, [s EXCEPT ![1] = StructA(j), ![2] = StructB(j)], q>> ELSE <<FALSE, s, q>>
    [] e.o = "list" -> LET j == Node(t, e) IN IF j[1] = "a" THEN <<TRUE, s, j[2]>> ELSE <<FALSE, s, q>>
    [] e.o = "assign" -> <<TRUE, [s EXCEPT ![e.v] = s[e.w]], q>>
    [] e.o = "swap" -> <<TRUE, [s EXCEPT ![e.v] = s[e.w], ![e.w] = s[e.v]], q>>
    [] e.o = "erase" -> <<TRUE, s, Without(q, e.n)>>
    [] e.o = "push" -> <<TRUE, s, Append(q, s[e.v])>>
    [] e.o = "set" -> <<TRUE, s, [q EXCEPT ![e.n] = s[e.v]]>>
    [] e.o = "member" -> <<TRUE, [s EXCEPT ![e.v] = Child(s[e.w], e.k)], q>>
    [] e.o = "write" -> <<e.doc = s[e.v], s, q>>       \* the view encoded again
EvOK(t, e) == LET r == Step(t, e) IN /\ e.ok = r[1]
                                     /\ e.docs = t.docs
                                     /\ (r[1] => e.s = r[2] /\ e.q = r[3])
Init == i = 1 /\ l = 1 /\ s = Fresh /\ q = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = Fresh /\ q' = <<>>
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(Traces[i], e) THEN l' = l + 1 /\ i' = i /\ s' = e.s /\ q' = e.q
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = Fresh /\ q' = <<>>
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED <<s, q>>
Spec == Init /\ [][Next]_<<i, l, s, q>>
=============================================================================
