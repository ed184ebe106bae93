----------------------------- MODULE ReflectMC -----------------------------
(* All small class hierarchies, and every history of visits that assign. *)
EXTENDS Reflect, TLC
CONSTANTS Bug, MaxW
VARIABLES D, T, s, n
vars == <<D, T, s, n>>
Types == <<"P", "Q", "R">>
At == {<<>>, << <<"A1", 3>> >>, << <<"B0", 4>>, <<"AB", 5>> >>}
Entry(t, m, k, ty, a) == [n |-> m, ty |-> ty, id |-> t \o "." \o m, k |-> k, a |-> a]
Lists(t) ==
  {<<Entry(t, "x", k, ty, a)>> : k \in {"mem", "ref", "val"}, ty \in {"i", "ci"}, a \in At}
  \cup {<<Entry(t, "x", "mem", "i", a), Entry(t, "y", k, "i", <<>>)>> : k \in {"mem", "ref"}, a \in At}
RECURSIVE Chain(_, _), ChainAll(_, _)
Chain(d, t) == ChainAll(d, d[t].bases) \o <<t>>
ChainAll(d, bs) == IF bs = <<>> THEN <<>> ELSE Chain(d, Head(bs)) \o ChainAll(d, Tail(bs))
Shapes == { <<<<>>, <<>>, <<"P", "Q">>>>, <<<<>>, <<>>, <<"Q", "P">>>>, <<<<>>, <<"P">>, <<"Q">>>>, <<<<>>, <<"P">>, <<>>>>, <<<<>>, <<>>, <<"Q">>>> }
Members == {t \o "." \o m : t \in {"P", "Q", "R"}, m \in {"x", "y"}}
(* what the code of the macros does; Bug selects a wrong variant *)
RECURSIVE Code(_, _), CodeAll(_, _)
Code(d, t) == IF Bug = "ownfirst" THEN d[t].f \o CodeAll(d, d[t].bases) ELSE CodeAll(d, d[t].bases) \o d[t].f
CodeAll(d, bs) == IF bs = <<>> THEN <<>>
                  ELSE IF Bug = "onebase" THEN Code(d, bs[1]) ELSE Code(d, Head(bs)) \o CodeAll(d, Tail(bs))
RECURSIVE Count(_, _), CountAll(_, _)
Count(d, t) == Len(d[t].f) + CountAll(d, d[t].bases)
CountAll(d, bs) == IF bs = <<>> THEN 0 ELSE Count(d, Head(bs)) + CountAll(d, Tail(bs))
FirstHit(Q, as) == IF Bug = "lasthit" THEN (LET h == Hits(Q, as) IN IF h = <<>> THEN -1 ELSE Part(Q, h[Len(h)])) ELSE Get(Q, as)

Init == /\ T \in {"P", "Q", "R"} /\ n = 0
        /\ \E sh \in Shapes : \E p \in Lists("P"), q \in Lists("Q"), r \in {Entry("R", "x", "mem", "i", a) : a \in At} :
             D = [t \in {"P", "Q", "R"} |-> CASE t = "P" -> [bases |-> sh[1], f |-> p]
                                             [] t = "Q" -> [bases |-> sh[2], f |-> q]
                                             [] t = "R" -> [bases |-> sh[3], f |-> <<r>>]]
        /\ s = [m \in Members |-> 0]
Write(w, co, stop) ==
  LET v == Code(D, T) IN
  /\ n < MaxW /\ n' = n + 1
  /\ s' = IF w \in 1..Min(Len(v), stop) /\ Writable(v[w], co) THEN [s EXCEPT ![v[w].id] = n + 1] ELSE s
  /\ UNCHANGED <<D, T>>
Next == \E w \in 1..4, co \in BOOLEAN, stop \in 1..4 : Write(w, co, stop)
Spec == Init /\ [][Next]_vars

CodeIsVisit == Code(D, T) = Visit(D, T) /\ Count(D, T) = Len(Visit(D, T))
(* every entry of every class in the hierarchy is visited exactly once, base classes first *)
Owner(x) == CHOOSE t \in {"P", "Q", "R"} : \E m \in {"x", "y"} : x.id = t \o "." \o m
Complete ==
  LET v == Code(D, T) c == Chain(D, T) IN
  /\ \A j \in 1..Len(c) : \A k \in 1..Len(D[c[j]].f) : Cardinality({h \in 1..Len(v) : v[h] = D[c[j]].f[k]}) = 1
  /\ \A h \in 1..Len(v) : \E j \in 1..Len(c) : Owner(v[h]) = c[j]
  /\ \A h, g \in 1..Len(v) : Owner(v[g]) \in {D[Owner(v[h])].bases[b] : b \in 1..Len(D[Owner(v[h])].bases)} => g < h
Query == \A j \in 1..Len(Visit(D, T)) : \A Q \in {"A0", "A1", "B0", "AB", "PV"} :
  LET as == Visit(D, T)[j].a IN
  /\ (FirstHit(Q, as) # -1) = Has(Q, as)
  /\ Has(Q, as) => FirstHit(Q, as) = Parts(Q, as)[1]
  /\ Keep({Q}, as) = Hits(Q, as)
AnyOK == \A Q \in {"A0", "B0", "PV"} : HasAny(D, T, {Q}) = (\E j \in 1..Len(Visit(D, T)) : Keep({Q}, Visit(D, T)[j].a) # <<>>)
(* assigning through one entry changes that member and nothing else *)
Frame == [][ \A m \in Members : s'[m] # s[m] => \E j \in 1..Len(Visit(D, T)) : Visit(D, T)[j].id = m /\ Cardinality({q \in Members : s'[q] # s[q]}) = 1 ]_vars
=============================================================================
