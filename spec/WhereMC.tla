------------------------------ MODULE WhereMC ------------------------------
(* The way a failed decoding gives leads, followed from the root, to a part of the document that does  *)
(* not decode into the type there, and everything before it on the way does. Checked on every document *)
(* over a small universe of a struct with a vector of structs, a map and an optional.                  *)
EXTENDS Serde
CONSTANT Whole          \* FALSE: only the innermost step is told
VARIABLES j, pc
N8 == TInt(8, TRUE)
InT == TRec("In", <<F("p", N8), F("q", TOpt(N8))>>)
ST == TRec("S", <<F("n", N8), F("v", TVec(InT)), F("m", TMap(N8)), F("o", TOpt(InT))>>)
Leaf == {I(1), I(200), Null}
InDoc(x, y) == <<"m", << <<"p", x>>, <<"q", y>> >> >>
Ins == { InDoc(x, y) : x \in Leaf, y \in Leaf } \cup { <<"m", <<>> >>, Str("x"), <<"a", <<I(1), I(200)>> >>, <<"a", <<I(200)>> >> }
Init == j = <<"m", <<>> >> /\ pc = 0
More(k, S) == j' \in { <<"m", Append(j[2], <<k, x>>)>> : x \in S } \cup {j}
Next == /\ pc < 4 /\ pc' = pc + 1
        /\ CASE pc = 0 -> More("n", Leaf)
             [] pc = 1 -> More("v", { <<"a", <<>> >> } \cup { <<"a", <<x>> >> : x \in Ins } \cup { <<"a", <<InDoc(I(1), I(1)), x>> >> : x \in Ins })
             [] pc = 2 -> More("m", { <<"m", << <<"a", x>> >> >> : x \in Leaf } \cup { <<"m", << <<"a", I(1)>>, <<"b", x>> >> >> : x \in Leaf } \cup {I(1)})
             [] pc = 3 -> More("o", Ins \cup {Null})
Spec == Init /\ [][Next]_<<j, pc>>
R == Decode(ST, j, Default(ST))
Told == IF Whole THEN R[2] ELSE IF R[2] = <<>> THEN <<>> ELSE <<R[2][1]>>
\* follows a way (outermost step first) down type and document: <<type, document>> reached
FieldT(T, n) == LET k == CHOOSE k \in DOMAIN T[3] : T[3][k].n = n IN T[3][k].T
Num(s) == CHOOSE k \in 0..9 : ToString(k) = s
RECURSIVE Follow(_, _, _)
Follow(T, d, way) ==
  IF T[1] = "opt" /\ way # <<>> THEN Follow(T[2], d, way)
  ELSE IF way = <<>> THEN <<T, d>>
  ELSE LET st == Head(way) IN
       CASE st[1] = "f" /\ T[1] = "rec" /\ d[1] = "m" -> Follow(FieldT(T, st[2]), IF HasKey(d[2], st[2]) THEN Get(d[2], st[2]) ELSE Null, Tail(way))
         [] st[1] = "i" /\ T[1] = "vec" /\ d[1] = "a" -> Follow(T[2], d[2][Num(st[2]) + 1], Tail(way))
         [] st[1] = "i" /\ T[1] = "rec" /\ d[1] = "a" -> Follow(T[3][Num(st[2]) + 1].T, IF Num(st[2]) < Len(d[2]) THEN d[2][Num(st[2]) + 1] ELSE Null, Tail(way))
         [] st[1] = "k" /\ T[1] = "map" /\ d[1] = "m" -> Follow(T[2], Get(d[2], st[2]), Tail(way))
         [] OTHER -> <<"lost">>
Rev(w) == [k \in DOMAIN w |-> w[Len(w) + 1 - k]]
\* what the way leads to does not decode, and not because of something further inside
LeadsThere == ~R[1] => LET e == Follow(ST, j, Rev(Told)) IN
                       /\ e # <<"lost">>
                       /\ Decode(e[1], e[2], Default(e[1])) = No
=============================================================================
