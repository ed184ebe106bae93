---------------------------- MODULE ReflectTrace ----------------------------
EXTENDS Reflect, TLC, Json, IOUtils
VARIABLES i, l, D, T, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
Range(q) == {q[j] : j \in 1..Len(q)}
Tag(ty) == IF ty = "ci" THEN "i" ELSE ty
Store(q) == [m \in {q[j][1] : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = m][2]]
QOK(qs, as) == \A j \in 1..Len(qs) : LET q == qs[j] IN
  /\ q[2] = Has(q[1], as) /\ q[3] = Get(q[1], as) /\ q[4] = Parts(q[1], as)
VisOK(e) ==
  LET v == Seen(D, T, e.stop) IN
  /\ Len(e.f) = Len(v)
  /\ e.thrown = (e.stop \in 1..Len(Visit(D, T)))
  /\ e.wrote = Wrote(D, T, e.co, e.w, e.stop)
  /\ Store(e.s) = After(D, T, s, e.co, e.w, e.val, e.stop)
  /\ \A j \in 1..Len(v) : LET x == v[j] y == e.f[j] IN
       /\ y.n = x.n /\ y.ty = Tag(x.ty) /\ y.a = x.a /\ QOK(y.q, x.a)
       /\ y.v = Shown(x, IF j > e.w THEN Store(e.s) ELSE s)
       /\ y.id = (IF x.k = "val" THEN "" ELSE x.id)
       /\ y.l = (x.k # "val")
       /\ y.c = (x.k # "val" /\ ~Writable(x, e.co))
TypeOK(e) ==
  LET v == Visit(D, T) flt == Range(e.flt) IN
  /\ Len(e.f) = Len(v)
  /\ \A j \in 1..Len(v) : LET as == Keep(flt, v[j].a) IN
       /\ e.f[j].n = v[j].n /\ e.f[j].ty = Tag(v[j].ty) /\ e.f[j].a = as /\ QOK(e.f[j].q, as)
  /\ Range(e.ev) = {at[1] : at \in UNION {Range(Keep(flt, v[j].a)) : j \in 1..Len(v)}}
Can(e) ==
  CASE e.o = "decl" -> TRUE
    [] e.o = "num" -> e.t \in DOMAIN D /\ e.n = Len(Visit(D, e.t)) /\ e.is /\ ~e.not /\ e.name = e.t
    [] e.o = "new" -> TRUE
    [] e.o = "vis" -> VisOK(e)
    [] e.o = "type" -> TypeOK(e)
    [] e.o = "any" -> e.r = HasAny(D, T, Range(e.qs))
    [] OTHER -> FALSE
Reset == i' = i + 1 /\ l' = 1 /\ D' = <<>> /\ T' = "" /\ s' = <<>>
Init == i = 1 /\ l = 1 /\ D = <<>> /\ T = "" /\ s = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN Reset
        ELSE LET e == Traces[i].ev[l] IN
             IF Can(e)
             THEN /\ l' = l + 1 /\ i' = i
                  /\ D' = (IF e.o = "decl" THEN (e.t :> [bases |-> e.bases, f |-> e.f]) @@ D ELSE D)
                  /\ T' = (IF e.o = "num" THEN e.t ELSE T)
                  /\ s' = (IF e.o \in {"new", "vis"} THEN Store(e.s) ELSE s)
             ELSE PrintT(<<"REJ", i, l>>) /\ Reset
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ UNCHANGED <<l, D, T, s>>
Spec == Init /\ [][Next]_<<i, l, D, T, s>>
=============================================================================
