----------------------------- MODULE SerdeTrace -----------------------------
(* Observed encodings, decodings and patches against Serde.tla.                                       *)
EXTENDS SerdeTypes, Json, IOUtils
CONSTANT Where          \* also judge whether errors tell the way to the offending part
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)

EncOK(e) ==
  LET T == Types[e.T]
      x == Encode(T, e.v, e.sk)
      x1 == Encode(T, e.v, TRUE)
  IN /\ SameDoc(T, x, e.dump)
     /\ SameDoc(T, x, e.tree)
     /\ SameDoc(T, x, e.text)
     /\ IF x1 = Err THEN e.rt = Err
        ELSE LET d == Decode(T, x1, Default(T)) IN
             IF d[1] THEN e.rt[1] = TRUE /\ SameV(T, d[2], e.rt[2]) /\ (e.T \in Lossless => SameV(T, e.v, e.rt[2]))
             ELSE e.rt = <<"exc">> /\ e.T \notin Lossless
\* got: <<FALSE, words of the message, <<words of its first line, ...>> >>
Says(ws, w) == \E k \in DOMAIN ws : ws[k] = w
NamesMember(where, got) ==
  LET fs == SelectSeq(where, LAMBDA x : x[1] = "f") IN Says(got[2], "*") \/ fs = <<>> \/ Says(got[2], fs[1][2])
\* every step of the way out is named, one line each at least, innermost first (keys that are not plain words aside)
PlainKeys == {"a", "b", "red", "x1", "x7", "0", "null"}
RECURSIVE Chain(_, _)
Chain(where, lines) ==
  IF where = <<>> THEN TRUE
  ELSE IF Head(where)[1] = "k" /\ Head(where)[2] \notin PlainKeys THEN Chain(Tail(where), lines)
  ELSE LET hit == {k \in DOMAIN lines : Says(lines[k], Head(where)[2])} IN
       IF hit = {} THEN FALSE
       ELSE LET k == CHOOSE k \in hit : \A m \in hit : k <= m IN Chain(Tail(where), SubSeq(lines, k + 1, Len(lines)))
WhereOK(r, got) == r[1] \/ Says(got[2], "*") \/ Chain(r[2], got[3])
ResOK(T, r, got) ==
  IF r[1] THEN got[1] = TRUE /\ Len(got) = 2 /\ SameV(T, r[2], got[2])
  ELSE got[1] = FALSE /\ NamesMember(r[2], got)
Kept(e) == IF "kept" \in DOMAIN e THEN e.kept ELSE TRUE      \* the document itself is untouched
EvOK(e) ==
  CASE e.o = "enc" -> EncOK(e)
    [] e.o = "dec" -> LET r == Decode(Types[e.T], e.j, e.old) IN
                      Kept(e) /\ e.r /= <<"exc">> /\ ResOK(Types[e.T], r, e.r) /\ (Where => WhereOK(r, e.r))
    [] e.o = "pat" -> LET r == Patch(Types[e.T], e.old, e.j) IN
                      Kept(e) /\ e.r /= <<"exc">> /\ ResOK(Types[e.T], r, e.r) /\ (Where => WhereOK(r, e.r))

Init == i = 1 /\ l = 1
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1
        ELSE IF EvOK(Traces[i].ev[l]) THEN l' = l + 1 /\ i' = i
        ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1
  \/ /\ i = Len(Traces) + 1
     /\ PrintT(<<"DONE", Len(Traces)>>)
     /\ i' = i + 1 /\ l' = 1
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
