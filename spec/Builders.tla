----------------------------- MODULE Builders -----------------------------
(* Putting documents together piece by piece and taking them apart again. A builder is the sequence of  *)
(* the pieces added so far; an extractor over a sequence is a position; a failed extraction leaves it   *)
(* where it is. Documents, types and the meaning of Encode/Decode are those of Serde.tla.              *)
EXTENDS SerdeTypes
BTypes == [Inner |-> InnerT] @@ Types
\* a finished document b is what the pieces <<name, type name, value>> say, in order
PieceOK(p, x, sk) == IF p[2] = "doc" THEN x = p[3] ELSE SameDoc(BTypes[p[2]], Encode(BTypes[p[2]], p[3], sk), x)
Built(arr, ps, b) ==
  /\ b[1] = (IF arr THEN "a" ELSE "m")
  /\ Len(b[2]) = Len(ps)
  /\ \A k \in DOMAIN ps : IF arr THEN \E sk \in BOOLEAN : PieceOK(ps[k], b[2][k], sk)
                          ELSE b[2][k][1] = ps[k][1] /\ \E sk \in BOOLEAN : PieceOK(ps[k], b[2][k][2], sk)
\* what lies at a position (counted from 0) or under a name; null if nothing does
Elem(j, k) == IF k < Len(j[2]) THEN j[2][k + 1] ELSE Null
Under(j, n) == IF HasKey(j[2], n) THEN Get(j[2], n) ELSE Null
\* position after extracting a value of type T from position p
Advance(j, T, p) == IF Decode(T, Elem(j, p), Default(T))[1] THEN p + 1 ELSE p
=============================================================================
