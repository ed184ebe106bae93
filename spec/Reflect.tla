------------------------------ MODULE Reflect ------------------------------
(* Struct reflection (kl/ctti.hpp, kl/reflect_struct.hpp).
   D maps a type to its declaration: the direct bases and the entries of the
   macro, in order. An entry is [n |-> name, ty |-> type, id |-> the member it
   designates, k |-> "mem" | "ref" | "val", a |-> attributes]; an attribute is
   <<class, value>>. An object is a function from members to values. *)
EXTENDS Integers, Sequences, FiniteSets

(* what a visit of type T sees: everything its bases declare, then its own entries *)
RECURSIVE Visit(_, _), VisitAll(_, _)
Visit(D, T) == VisitAll(D, D[T].bases) \o D[T].f
VisitAll(D, bs) == IF bs = <<>> THEN <<>> ELSE Visit(D, Head(bs)) \o VisitAll(D, Tail(bs))

(* attribute classes: A2 -> A1 -> A0, AB -> A0 and B0, PV -> A0 privately *)
Bases(U) == CASE U = "A1" -> {"A0", "A1"} [] U = "A2" -> {"A0", "A1", "A2"}
              [] U = "AB" -> {"A0", "B0", "AB"} [] OTHER -> {U}
Matches(Q, U) == Q \in Bases(U)
Part(Q, at) == IF at[1] = "AB" /\ Q = "B0" THEN at[2] + 1000 ELSE at[2]

Hits(Q, as) == SelectSeq(as, LAMBDA at : Matches(Q, at[1]))
Has(Q, as) == \E j \in 1..Len(as) : Matches(Q, as[j][1])
Get(Q, as) == IF Has(Q, as) THEN Part(Q, Hits(Q, as)[1]) ELSE -1
Parts(Q, as) == [j \in 1..Len(Hits(Q, as)) |-> Part(Q, Hits(Q, as)[j])]
Keep(flt, as) == IF "*" \in flt THEN as ELSE SelectSeq(as, LAMBDA at : \E Q \in flt : Matches(Q, at[1]))
HasAny(D, T, qs) == \E j \in 1..Len(Visit(D, T)) : \E Q \in qs : Has(Q, Visit(D, T)[j].a)

(* the value an entry shows, and whether it can be assigned through *)
Shown(x, s) == IF x.k = "val" THEN (3 * s[x.id]) + 1 ELSE s[x.id]
Writable(x, co) == \/ x.k = "ref" \/ (x.k = "mem" /\ ~co /\ x.ty # "ci")
(* the visitor sees entry number w after the values of the earlier ones were read, and may assign to it *)
Min(a, b) == IF a < b THEN a ELSE b
Seen(D, T, stop) == LET v == Visit(D, T) IN IF stop \in 1..Len(v) THEN SubSeq(v, 1, stop) ELSE v
Wrote(D, T, co, w, stop) == w \in 1..Len(Seen(D, T, stop)) /\ Writable(Visit(D, T)[w], co)
After(D, T, s, co, w, val, stop) ==
  IF Wrote(D, T, co, w, stop) THEN [s EXCEPT ![Visit(D, T)[w].id] = val] ELSE s
=============================================================================
