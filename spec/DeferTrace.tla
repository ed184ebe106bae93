----------------------------- MODULE DeferTrace -----------------------------
EXTENDS Defer, TLC, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
Init == i = 1 /\ l = 1 /\ s = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN (IF s = <<>> THEN TRUE ELSE PrintT(<<"REJ", i, l - 1>>)) /\ i' = i + 1 /\ l' = 1 /\ s' = <<>>
        ELSE LET e == Traces[i].ev[l] IN
             IF Can(s, e) THEN l' = l + 1 /\ i' = i /\ s' = Do(s, e)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = <<>>
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
