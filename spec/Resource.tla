------------------------------ MODULE Resource ------------------------------
(* A value tree addressed by paths and changed by HTTP-like requests.                                  *)
(* State: the value (tagged tuple of Serde.tla) and the history of successful modifications, a         *)
(* sequence of <<path, whole>>: path is the sequence of segment texts a modification was made at,      *)
(* whole says that everything below that path was replaced.                                            *)
(* A request is a method, a path (sequence of [t |-> text, i |-> decimal value or -1]) and a document. *)
EXTENDS Serde
\* messages with which the user's validators reject this very value of type T (not its children)
CONSTANT SelfErr(_, _)

TLst(T) == <<"vec", T, "list">>                   \* a sequence without positional access
Texts(segs) == [k \in DOMAIN segs |-> segs[k].t]

\* ---------------------------------------------------------------- addressing
\* A node: its type and value, its own markers, the keys of its elements, the member that gives it its
\* identity in a keyed collection, protection inherited from above, and its location in the root value.
Root(T, v) == [T |-> T, v |-> v, ro |-> FALSE, sro |-> FALSE, ck |-> <<>>, idk |-> "",
               above |-> FALSE, key |-> FALSE, loc |-> <<>>]
\* an element of a map, sequence or optional: no markers of its own
Elem(n, T, v, at, idk) == [T |-> T, v |-> v, ro |-> FALSE, sro |-> FALSE, ck |-> <<>>, idk |-> idk,
                           above |-> n.above \/ n.sro, key |-> n.key, loc |-> Append(n.loc, at)]
Field(n, f, v, at) == [T |-> f.T, v |-> v, ro |-> "ro" \in f.at, sro |-> "sro" \in f.at, ck |-> f.ck, idk |-> "",
                       above |-> n.above \/ n.sro, key |-> n.key \/ (n.idk /= "" /\ n.idk = f.n),
                       loc |-> Append(n.loc, at)]
KeyMatch(k, s) == CASE k[1] = "s" -> k[2] = s.t
                    [] k[1] = "i" -> s.i >= 0 /\ k[2] = <<0, 0, 0, s.i>>
                    [] k[1] = "r" -> k[2][1][2][2] = s.t        \* struct key: matched by its first member
Sequence(T) == T[1] \in {"vec", "arr"}
Keyed(n) == n.ck /= <<>> /\ Sequence(n.T)
ElemType(T) == IF T[1] = "arr" THEN T[3] ELSE T[2]
\* position and key member of the element of a keyed collection that segment s addresses; <<>> if none
KeyHit(n, s) ==
  LET hits(k) == {i \in DOMAIN n.v[2] : KeyMatch(Get(n.v[2][i][2], n.ck[k]), s)}
      ks == {k \in DOMAIN n.ck : hits(k) /= {}}
  IN IF ks = {} THEN <<>>
     ELSE LET k == CHOOSE k \in ks : \A k2 \in ks : k <= k2
          IN <<CHOOSE i \in hits(k) : \A i2 \in hits(k) : i <= i2, n.ck[k]>>
Indexed(T) == T[1] = "arr" \/ (T[1] = "vec" /\ Len(T) = 2)
NF == <<FALSE>>
RECURSIVE Walk(_, _)
Walk(n, segs) ==
  IF segs = <<>> THEN <<TRUE, n>>
  ELSE LET s == Head(segs) IN
    CASE n.T[1] = "rec" ->
           LET ix == {i \in DOMAIN n.T[3] : n.T[3][i].jn = s.t} IN
           IF ix = {} THEN NF
           ELSE LET i == CHOOSE i \in ix : \A k \in ix : i <= k
                IN Walk(Field(n, n.T[3][i], n.v[2][i][2], i), Tail(segs))
      [] n.T[1] = "opt" -> IF IsNull(n.v) THEN NF ELSE Walk(Elem(n, n.T[2], n.v[2], 0, ""), segs)
      [] n.T[1] = "map" ->
           LET ix == {i \in DOMAIN n.v[2] : n.v[2][i][1] = s.t} IN
           IF ix = {} THEN NF
           ELSE LET i == CHOOSE i \in ix : TRUE IN Walk(Elem(n, n.T[2], n.v[2][i][2], i, ""), Tail(segs))
      [] Keyed(n) -> LET h == KeyHit(n, s) IN
                     IF h = <<>> THEN NF ELSE Walk(Elem(n, ElemType(n.T), n.v[2][h[1]], h[1], h[2]), Tail(segs))
      [] Indexed(n.T) -> IF s.i < 0 \/ s.i >= Len(n.v[2]) THEN NF
                         ELSE Walk(Elem(n, ElemType(n.T), n.v[2][s.i + 1], s.i + 1, ""), Tail(segs))
      [] OTHER -> NF
RECURSIVE SetAt(_, _, _)
SetAt(v, loc, x) ==
  IF loc = <<>> THEN x
  ELSE LET h == Head(loc) IN
       CASE v[1] = "o" -> <<"o", SetAt(v[2], Tail(loc), x)>>
         [] v[1] \in {"r", "m"} -> <<v[1], [v[2] EXCEPT ![h] = <<@[1], SetAt(@[2], Tail(loc), x)>>]>>
         [] v[1] = "a" -> <<"a", [v[2] EXCEPT ![h] = SetAt(@, Tail(loc), x)]>>
\* the node itself may not be replaced / nothing may be added to or removed from it
Locked(n) == n.ro \/ n.above \/ n.key
ChildrenLocked(n) == Locked(n) \/ n.sro

\* ---------------------------------------------------------------- validation of a whole tree
DupMsg == "duplicate child key"
DupErr(ck, v) == IF \E k \in DOMAIN ck : \E a, b \in DOMAIN v[2] : a < b /\ Get(v[2][a][2], ck[k]) = Get(v[2][b][2], ck[k])
                 THEN {DupMsg} ELSE {}
RECURSIVE Errs(_, _)
Errs(T, v) ==
  SelfErr(T, v) \cup
  CASE T[1] = "opt" -> IF IsNull(v) THEN {} ELSE Errs(T[2], v[2])
    [] T[1] = "rec" -> UNION {(IF T[3][i].ck = <<>> THEN {} ELSE DupErr(T[3][i].ck, v[2][i][2])) \cup Errs(T[3][i].T, v[2][i][2]) : i \in DOMAIN v[2]}
    [] T[1] = "map" -> UNION {Errs(T[2], v[2][i][2]) : i \in DOMAIN v[2]}
    [] Sequence(T) -> UNION {Errs(ElemType(T), v[2][i]) : i \in DOMAIN v[2]}
    [] OTHER -> {}
\* a candidate that is not in the tree yet: itself and what an optional holds
RECURSIVE CandErrs(_, _)
CandErrs(T, v) == SelfErr(T, v) \cup (IF T[1] = "opt" /\ ~IsNull(v) THEN CandErrs(T[2], v[2]) ELSE {})

\* replacing a value of this type replaces addressable values below it
HasBelow(T) == T[1] \in {"rec", "opt", "map", "vec", "arr"}

\* ---------------------------------------------------------------- requests
\* outcome: status, new root value, modification <<path, whole>> or <<>>, possible messages of a conflict
Out(st, v, mark, msgs) == [st |-> st, v |-> v, mark |-> mark, msgs |-> msgs]
Rejected(st, v) == Out(st, v, <<>>, {})
\* the new root value nv goes through if its whole tree validates
Commit(T, v, nv, st, mark, extra) ==
  LET e == Errs(T, nv) \cup extra IN IF e = {} THEN Out(st, nv, mark, {}) ELSE Out(409, v, <<>>, e)
Replace(T, v, segs, j, merge) ==
  LET w == Walk(Root(T, v), segs) IN
  IF ~w[1] THEN Rejected(404, v)
  ELSE LET n == w[2] IN
  IF Locked(n) THEN Rejected(405, v)
  ELSE LET r == IF merge THEN Patch(n.T, n.v, j) ELSE Decode(n.T, j, n.v) IN
  IF ~r[1] THEN Rejected(400, v)
  ELSE IF n.idk /= "" /\ Get(n.v[2], n.idk) /= Get(r[2][2], n.idk) THEN Rejected(405, v)
  ELSE Commit(T, v, SetAt(v, n.loc, r[2]), 200, <<Texts(segs), HasBelow(n.T)>>, {})
Add(T, v, segs, j) ==
  LET w == Walk(Root(T, v), segs) IN
  IF ~w[1] THEN Rejected(404, v)
  ELSE LET n == w[2] IN
  IF ChildrenLocked(n) \/ n.T[1] /= "vec" THEN Rejected(405, v)
  ELSE LET r == Decode(n.T[2], j, Default(n.T[2])) IN
  IF ~r[1] THEN Rejected(400, v)
  ELSE Commit(T, v, SetAt(v, n.loc, <<"a", Append(n.v[2], r[2])>>), 201, <<Texts(segs), TRUE>>, CandErrs(n.T[2], r[2]))
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
\* removing child k of the collection node n
RemoveChild(T, v, n, k, segs) ==
  IF ChildrenLocked(n) \/ n.T[1] = "arr" THEN Rejected(405, v)
  ELSE Commit(T, v, SetAt(v, n.loc, <<n.v[1], Without(n.v[2], k)>>), 204, <<Texts(segs), TRUE>>, {})
RemoveSelf(T, v, segs) ==
  LET w == Walk(Root(T, v), segs) IN
  IF ~w[1] THEN Rejected(404, v)
  ELSE LET n == w[2] IN
  IF Locked(n) \/ n.T[1] /= "opt" THEN Rejected(405, v)
  ELSE Commit(T, v, SetAt(v, n.loc, Null), 204, <<Texts(segs), HasBelow(n.T[2])>>,
              IF IsNull(n.v) THEN {} ELSE CandErrs(n.T[2], n.v[2]))   \* the value held may veto its removal
Remove(T, v, segs) ==
  IF segs = <<>> THEN RemoveSelf(T, v, segs)
  ELSE LET up == SubSeq(segs, 1, Len(segs) - 1)
           s == segs[Len(segs)]
           w == Walk(Root(T, v), up) IN
  IF ~w[1] THEN Rejected(404, v)
  ELSE LET n == w[2] IN
    CASE n.T[1] = "map" ->
           LET ix == {i \in DOMAIN n.v[2] : n.v[2][i][1] = s.t} IN
           IF ix = {} THEN Rejected(404, v) ELSE RemoveChild(T, v, n, CHOOSE i \in ix : TRUE, up)
      [] Keyed(n) -> LET h == KeyHit(n, s) IN
                     IF h = <<>> THEN Rejected(404, v) ELSE RemoveChild(T, v, n, h[1], up)
      [] Indexed(n.T) ->
           IF s.i < 0 THEN Rejected(404, v)
           ELSE IF ChildrenLocked(n) \/ n.T[1] = "arr" THEN Rejected(405, v)
           ELSE IF s.i >= Len(n.v[2]) THEN Rejected(404, v)
           ELSE RemoveChild(T, v, n, s.i + 1, up)
      [] OTHER -> RemoveSelf(T, v, segs)
Request(T, v, m, segs, j) ==
  CASE m = "put" -> Replace(T, v, segs, j, FALSE)
    [] m = "patch" -> Replace(T, v, segs, j, TRUE)
    [] m = "post" -> Add(T, v, segs, j)
    [] m = "delete" -> Remove(T, v, segs)
    [] m = "get" -> Rejected(IF Walk(Root(T, v), segs)[1] THEN 200 ELSE 404, v)

\* ---------------------------------------------------------------- modification tracking
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Generation(hist) == Len(hist) + 1
Touches(h, p) == IsPrefix2(p, h[1]) \/ (h[2] /\ IsPrefix2(h[1], p))
\* generation in which p last changed; 0 if it never did
ChangedAt(hist, p) == LET g == {k \in DOMAIN hist : Touches(hist[k], p)}
                      IN IF g = {} THEN 0 ELSE 1 + (CHOOSE k \in g : \A k2 \in g : k2 <= k)
ChangedSince(hist, p, g) == ChangedAt(hist, p) > g
=============================================================================
