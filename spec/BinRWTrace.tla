----------------------------- MODULE BinRWTrace -----------------------------
(* Recorded operations on binary_reader / binary_writer against BinRW.tla.                            *)
(* A line: {k: "r"|"w", b: initial buffer, ev}; every event ends with the cursor: pos, left, empty,   *)
(* err (writers: also the whole buffer, bw).                                                          *)
EXTENDS BinRW, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
Pr == Rec(<<Num(2), Text>>)
Usr == Rec(<<Num(2), Text, Vec(Num(1))>>)
V3 == Var(<<Num(1), Text, Vec(Num(2))>>)
Types == [u8 |-> Num(1), i8 |-> Num(1), u16 |-> Num(2), i16 |-> Num(2), u32 |-> Num(4), i32 |-> Num(4), u64 |-> Num(8), i64 |-> Num(8), f32 |-> Num(4), f64 |-> Num(8),
  e16 |-> Num(2), bu16 |-> Big(2), bi32 |-> Big(4), bu64 |-> Big(8), lu16 |-> Num(2), li64 |-> Num(8), bu24 |-> Big(3),
  str |-> Text, vu8 |-> Vec(Num(1)), vu16 |-> Vec(Num(2)), vu64 |-> Vec(Num(8)), vstr |-> Vec(Text), mu8s |-> Map(Num(1), Text), msv |-> Map(Text, Vec(Num(2))), su16 |-> Set(Num(2)), sstr |-> Set(Text),
  pus |-> Pr, ou32 |-> Opt(Num(4)), ostr |-> Opt(Text), ov |-> Opt(Vec(Text)), oo |-> Opt(Opt(Num(2))), var |-> V3, vvar |-> Vec(V3), vo |-> Vec(Opt(Num(2))), vp |-> Vec(Pr),
  vv |-> Vec(Vec(Num(2))), vm |-> Vec(Map(Num(1), Text)), usr |-> Usr, vusr |-> Vec(Usr), vbig |-> Vec(Big(2)), ovar |-> Opt(V3), mvs |-> Map(Num(2), V3), nest |-> Var(<<Opt(Pr), Map(Num(1), Vec(Opt(Text)))>>),
  span8 |-> Rec(<<Num(1), Num(1), Num(1)>>)]
Prim(T) == T[1] = "num"
Untouched(n) == [k \in 1..n |-> 170]
\* value of a variable of type T that a failed read leaves behind: containers empty, optionals unset,
\* numbers and variants as they were, members of structs anything
EmptyV(T) == CASE T[1] = "str" -> <<"s", <<>> >> [] T[1] = "vec" -> <<"l", <<>> >> [] T[1] = "set" -> <<"t", <<>> >> [] T[1] = "map" -> <<"m", <<>> >> [] OTHER -> <<"0">>
AfterFail(T, old, new) == CASE T[1] \in {"num", "var"} -> new = old
                            [] T[1] \in {"str", "vec", "set", "map", "opt"} -> new = EmptyV(T) \/ new = old
                            [] OTHER -> TRUE
Cur(e, t) == e.pos = t.p /\ e.err = t.e /\ e.left = Left(t) /\ e.empty = (Left(t) = 0)
\* a composite that fails may have consumed or produced some of its parts
CurFail(e, t) == e.err /\ e.pos >= t.p /\ e.pos <= Len(t.b) /\ e.left = Len(t.b) - e.pos /\ e.empty = (e.left = 0)
MemOK(e, t) == e.mem <= 4096 + 256 * Len(t.b)
RdOK(e) ==
  CASE e.o = "skip" -> Cur(e, Skip(s, e.n))
    [] e.o = "note" -> Cur(e, Fail(s))
    [] e.o = "peek" -> Cur(e, s) /\ e.ok = CanTake(s, e.n) /\ e.d = (IF CanTake(s, e.n) THEN Bytes(s.b, s.p, e.n) ELSE Untouched(e.n))
    [] e.o = "raw" -> Cur(e, Take(s, e.n)) /\ e.ok = CanTake(s, e.n) /\ e.d = (IF CanTake(s, e.n) THEN Bytes(s.b, s.p, e.n) ELSE Untouched(e.n))
    [] e.o = "span" -> /\ Cur(e, IF e.mv THEN Take(s, e.n) ELSE IF CanTake(s, e.n) THEN s ELSE Fail(s))
                       /\ e.d = (IF CanTake(s, e.n) THEN Bytes(s.b, s.p, e.n) ELSE <<>>)
    [] e.o = "read" ->
         LET T == Types[e.T]
             r == IF s.e THEN Bad ELSE Dec(T, s.b, s.p) IN
         /\ MemOK(e, s)
         /\ e.ok = r[1]
         /\ IF r[1] THEN Cur(e, [s EXCEPT !.p = r[3]]) /\ Same(T, r[2], e.v)
            ELSE /\ (IF s.e \/ Prim(T) THEN Cur(e, Fail(s)) ELSE CurFail(e, s))
                 /\ AfterFail(T, e.old, e.v)
                 /\ (s.e /\ e.via = 0) => e.v = e.old       \* read(x) on a failed stream stores nothing
    [] OTHER -> FALSE                             \* an exception
WrOK(e) ==
  LET r == IF e.o = "exc" THEN s ELSE IF e.o = "skip" THEN Skip(s, e.n) ELSE IF e.o = "note" THEN Fail(s)
           ELSE IF e.o = "put" THEN Put(s, e.d) ELSE Put(s, Enc(Types[e.T], e.v))
      whole == e.o # "write" \/ Prim(Types[e.T]) \/ ~r.e \/ s.e
  IN IF e.o = "exc" THEN FALSE ELSE IF whole THEN Cur(e, r) /\ e.bw = r.b /\ (e.o \in {"put", "write"} => e.ok = ~r.e)
     ELSE CurFail(e, s) /\ Len(e.bw) = Len(s.b) /\ SubSeq(e.bw, 1, s.p) = SubSeq(s.b, 1, s.p) /\ ~e.ok
\* a container of e.n elements of e.each bytes, summarised: 4 bytes of count, then the elements; one byte
\* less of room or of input and it fails, leaving nothing in the container
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
LongOK(e) == LET size == 4 + e.n * e.each IN
  /\ e.wok /\ e.wrote = size /\ e.head = LE4(e.n)
  /\ e.rok /\ e.took = size /\ e.same
  /\ ~e.cutok /\ e.cutleft = 0 /\ ~e.smallok
EvOK(t, e) == IF t.k = "l" THEN LongOK(e) ELSE IF t.k = "r" THEN RdOK(e) ELSE WrOK(e)
After(t, e) == IF t.k = "l" THEN s ELSE [b |-> IF t.k = "r" THEN s.b ELSE e.bw, p |-> e.pos, e |-> e.err]
Fresh(k) == IF k > Len(Traces) THEN [b |-> <<>>, p |-> 0, e |-> FALSE] ELSE [b |-> Traces[k].b, p |-> 0, e |-> FALSE]
Init == i = 1 /\ l = 1 /\ s = Fresh(1)
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = Fresh(i + 1)
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(Traces[i], e) THEN l' = l + 1 /\ i' = i /\ s' = After(Traces[i], e)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = Fresh(i + 1)
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
