------------------------------ MODULE IterTrace ------------------------------
EXTENDS Iter, TLC, Json, IOUtils
VARIABLES i, l, p, v
Traces == ndJsonDeserialize(IOEnv.TRACE)
Can(e) == IF e.o = "init" THEN l = 1
          ELSE RetOK(e, p, v) /\ e.p = Pos(e, p) /\ ValOK(e, p, v, e.v)
Reset == i' = i + 1 /\ l' = 1 /\ p' = <<>> /\ v' = <<>>
Init == i = 1 /\ l = 1 /\ p = <<>> /\ v = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN Reset
        ELSE LET e == Traces[i].ev[l] IN
             IF Can(e) THEN l' = l + 1 /\ i' = i /\ p' = e.p /\ v' = e.v
             ELSE PrintT(<<"REJ", i, l>>) /\ Reset
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ UNCHANGED <<l, p, v>>
Spec == Init /\ [][Next]_<<i, l, p, v>>
=============================================================================
