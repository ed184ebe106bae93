---------------------------- MODULE Base64Trace -----------------------------
(* Recorded calls of the encoders and decoders against Base64.tla; every event stands alone:          *)
(* {o: "enc", u, b, t} or {o: "dec", u, t, ok, b}.                                                    *)
EXTENDS Base64, Json, IOUtils
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
EvOK(e) == CASE e.o = "enc" -> e.t = Enc(e.b, e.u)
             [] e.o = "dec" -> LET r == Dec(e.t, e.u) IN e.ok = r[1] /\ (r[1] => e.b = r[2])
             [] OTHER -> FALSE
Init == i = 1 /\ l = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ LET bad == {k \in DOMAIN Traces[i].ev : ~EvOK(Traces[i].ev[k])} IN
        bad # {} => PrintT(<<"REJ", i, CHOOSE k \in bad : \A m \in bad : k <= m>>)
     /\ i' = i + 1 /\ l' = 0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 0
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
