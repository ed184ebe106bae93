----------------------------- MODULE PathTrace ------------------------------
(* Recorded uses of kl::path and kl::path_view against Path.tla.                                      *)
(* Events: set {in, ok}, self {k: set from its own joined(k), ok}, clear, copy; each with d, the path *)
(* seen through its accessors: n, emp, segs, j = joined(0..n+1), v = views {a, b, n, emp, segs,       *)
(* front, pre = prefix(0..n)}.                                                                        *)
EXTENDS Path, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
ViewOK(v, t) ==
  LET w == View(t, v.a, v.b) IN
  /\ v.n = Len(w) /\ v.emp = (w = <<>>) /\ v.segs = w
  /\ v.front = (IF w = <<>> THEN <<>> ELSE w[1])
  /\ Len(v.pre) = Len(w) + 1 /\ \A k \in 0..Len(w) : v.pre[k + 1] = Prefix(t, v.a, k)
Seen(d, t) ==
  /\ d.n = Len(t) /\ d.emp = (t = <<>>) /\ d.segs = t
  /\ Len(d.j) = Len(t) + 2 /\ \A k \in 0..(Len(t) + 1) : d.j[k + 1] = Joined(t, k)
  /\ \A k \in DOMAIN d.v : ViewOK(d.v[k], t)
\* the outcome of an event and the path after it
Out(e) == CASE e.o = "set" -> Parse(e.in) [] e.o = "self" -> Parse(Joined(s, e.k)) [] e.o = "clear" -> <<TRUE, <<>> >> [] OTHER -> <<TRUE, s>>
After(e) == LET r == Out(e) IN IF r[1] THEN r[2] ELSE s
EvOK(e) == /\ e.o \in {"set", "self", "clear", "copy"}
           /\ e.ok = Out(e)[1]
           /\ Seen(e.d, After(e))
Init == i = 1 /\ l = 1 /\ s = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = <<>>
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(e) THEN l' = l + 1 /\ i' = i /\ s' = After(e)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = <<>>
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
