---------------------------- MODULE ResourceTrace ----------------------------
(* Recorded requests against Resource.tla.  A line: {root, v (initial value), ev: [..]}.              *)
(*   req: request on the resource; try: request on a copy of it; chg: changed_at of some paths;       *)
(*   set: the owner of the value assigns it directly (no request, no history);                       *)
(*   see: serialize_at_path / visit; dat: deserialize_at_path on a copy.                              *)
EXTENDS ResourceTypes, Json, IOUtils
VARIABLES i, l, v, hist
Traces == ndJsonDeserialize(IOEnv.TRACE)
T(t) == Roots[t.root]

\* statuses the request may be answered with, from the outcome of the specification
\* (a validator that throws something else than a validation error makes the request throw it: 999)
Allowed(o) == IF o.st /= 409 THEN {o.st}
              ELSE (IF o.msgs \ {"boom"} /= {} THEN {409} ELSE {}) \cup (IF "boom" \in o.msgs THEN {999} ELSE {})
Seg(p) == [k \in DOMAIN p |-> [t |-> p[k][1], i |-> p[k][2]]]
\* body of the answer
BodyOK(t, e, x, segs) ==
  IF e.m = "get" /\ e.st = 200 THEN LET n == Walk(Root(T(t), x), segs)[2] IN SameDoc(n.T, Encode(n.T, n.v, TRUE), e.body)
  ELSE e.st = 409 => e.body[2] \in Request(T(t), x, e.m, segs, e.j).msgs
ReqOK(t, e, x, h) ==
  LET segs == Seg(e.p)
      o == Request(T(t), x, e.m, segs, e.j)
      h2 == IF o.mark = <<>> THEN h ELSE Append(h, o.mark)
  IN /\ e.st \in Allowed(o)
     /\ BodyOK(t, e, x, segs)
     /\ IF o.mark = <<>> THEN e.v = <<"same">> \/ SameV(T(t), x, e.v)
        ELSE IF e.v = <<"same">> THEN SameV(T(t), o.v, x) ELSE SameV(T(t), o.v, e.v)
     /\ e.gen = Generation(h2)
     /\ \A k \in DOMAIN e.q : LET c == ChangedAt(h2, e.q[k][1]) IN e.q[k][2] = c /\ e.q[k][4] = (c > e.q[k][3])
EvOK(t, e) ==
  CASE e.o = "set" -> TRUE
    [] e.o \in {"req", "try"} -> ReqOK(t, e, v, hist)
    [] e.o = "see" -> LET w == Walk(Root(T(t), v), Seg(e.p)) IN
                      IF w[1] THEN e.r[1] = TRUE /\ SameDoc(w[2].T, Encode(w[2].T, w[2].v, TRUE), e.r[2]) ELSE e.r[1] = FALSE
    [] e.o = "dat" -> LET w == Walk(Root(T(t), v), Seg(e.p)) IN
                      IF ~w[1] THEN e.r = <<"nf">>
                      ELSE LET d == Decode(w[2].T, e.j, w[2].v) IN
                           IF d[1] THEN e.r[1] = "ok" /\ SameV(T(t), SetAt(v, w[2].loc, d[2]), e.r[2]) ELSE e.r = <<"bad">>
After(t, e) == IF e.o = "set" THEN <<e.v, hist>> ELSE IF e.o # "req" THEN <<v, hist>>
               ELSE LET o == Request(T(t), v, e.m, Seg(e.p), e.j)
                    IN <<IF e.v = <<"same">> THEN v ELSE e.v, IF o.mark = <<>> THEN hist ELSE Append(hist, o.mark)>>
Start(k) == IF k > Len(Traces) THEN v' = <<>> ELSE v' = Traces[k].v
Init == i = 1 /\ l = 1 /\ hist = <<>> /\ v = (IF Len(Traces) = 0 THEN <<>> ELSE Traces[1].v)
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ hist' = <<>> /\ Start(i + 1)
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(Traces[i], e) THEN l' = l + 1 /\ i' = i /\ LET a == After(Traces[i], e) IN v' = a[1] /\ hist' = a[2]
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ hist' = <<>> /\ Start(i + 1)
  \/ /\ i = Len(Traces) + 1
     /\ PrintT(<<"DONE", Len(Traces)>>)
     /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED <<v, hist>>
Spec == Init /\ [][Next]_<<i, l, v, hist>>
=============================================================================
