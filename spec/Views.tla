------------------------------- MODULE Views -------------------------------
(* Views of parsed documents (kl::json::view, kl::yaml::view): a view is bound to a node of some      *)
(* document by decoding; binding it again, copying, swapping or erasing views changes what the views  *)
(* denote and nothing else - no document changes, ever.                                               *)
(* Documents are the tagged tuples of Serde.tla.  A view is represented by what it denotes.           *)
EXTENDS Integers, Sequences, FiniteSets
Null == <<"n">>
HasKey(m, k) == \E i \in DOMAIN m : m[i][1] = k
Get(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k][2]
\* one step down: absent members and elements read as null
Child(j, k) == IF j[1] = "m" THEN IF HasKey(j[2], k) THEN Get(j[2], k) ELSE Null ELSE Null
Elem(j, n) == IF n <= Len(j[2]) THEN j[2][n] ELSE Null
RECURSIVE At(_, _)
At(j, p) == IF p = <<>> THEN j
            ELSE At(IF p[1][1] = "k" THEN Child(j, p[1][2]) ELSE Elem(j, p[1][2]), Tail(p))
\* decoding a node into a struct of two views a and b: by member, or by position
StructOK(j) == j[1] = "m" \/ (j[1] = "a" /\ Len(j[2]) <= 2)
StructA(j) == IF j[1] = "m" THEN Child(j, "a") ELSE Elem(j, 1)
StructB(j) == IF j[1] = "m" THEN Child(j, "b") ELSE Elem(j, 2)
Without(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
=============================================================================
