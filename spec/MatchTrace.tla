----------------------------- MODULE MatchTrace -----------------------------
EXTENDS Match, TLC, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
Can(e) == IF e.o = "init" THEN TRUE ELSE IF e.o = "match" THEN MatchOK(e, s) ELSE TupleOK(e)
Init == i = 1 /\ l = 1 /\ s = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = <<>>
        ELSE LET e == Traces[i].ev[l] IN
             IF Can(e) THEN l' = l + 1 /\ i' = i /\ s' = (IF e.o \in {"init", "match"} THEN <<e.alt, e.v>> ELSE s)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = <<>>
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ UNCHANGED <<l, s>>
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
