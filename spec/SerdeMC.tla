------------------------------ MODULE SerdeMC ------------------------------
(* Laws of Encode/Decode/Patch, checked by TLC on every (value, document) pair over a small universe  *)
(* of a struct with rename, aliases, default, allow-missing, range, flatten and extra fields.         *)
EXTENDS Serde
VARIABLES v, j, pc
N8 == TInt(8, TRUE)
InT == TRec("In", <<F("p", N8), At(Dv(F("q", N8), I(7)), "x")>>)
ST == TRec("S", <<Al(Ren(F("a", N8), "A"), <<"a1">>), F("b", TOpt(N8)), Ini(At(Vd(F("c", N8), <<"range", <<0,0,0,0>>, <<0,0,0,5>> >>), "allowmissing"), I(3)),
                  At(F("f", InT), "flatten"), At(F("e", TMap(N8)), "extra")>>)
Small == {I(1), I(4)}
Vals == { <<"r", << <<"a", a>>, <<"b", b>>, <<"c", I(3)>>, <<"f", <<"r", << <<"p", p>>, <<"q", I(7)>> >> >> >>, <<"e", MapV(e)>> >> >> :
          a \in Small, b \in {Null, <<"o", I(1)>>}, p \in Small, e \in {<<>>, << <<"z", I(1)>> >>} }
Leaf == {Null, I(2), I(200), Str("x")}
Opt(k, S) == { <<>> } \cup { << <<k, x>> >> : x \in S }
Init == v \in Vals /\ j = <<"m", <<>> >> /\ pc = 0
More(k, S) == j' \in { <<"m", j[2] \o x>> : x \in Opt(k, S) }
Next == /\ pc < 7 /\ v' = v /\ pc' = pc + 1
        /\ CASE pc = 0 -> More("A", Leaf)
             [] pc = 1 -> More("a1", {I(2), Null})
             [] pc = 2 -> More("b", Leaf)
             [] pc = 3 -> More("c", {I(2), I(6)})
             [] pc = 4 -> More("p", {I(2), Null})
             [] pc = 5 -> More("q", {I(2), Null})
             [] pc = 6 -> More("z", {I(2), I(200)}) \/ j' \in {Null, I(1), <<"a", <<>> >>}
Spec == Init /\ [][Next]_<<v, j, pc>>

D == Decode(ST, j, v)
P == Patch(ST, v, j)
Fld(x, n) == Get(x[2], n)
\* decoding what was encoded gives the value back (over a fresh object)
RoundTrip == LET r == Decode(ST, Encode(ST, v, TRUE), Default(ST)) IN r[1] /\ r[2] = v
RoundTripNulls == LET r == Decode(ST, Encode(ST, v, FALSE), Default(ST)) IN r[1] /\ r[2] = v
\* numbers never leave the declared range, and the validated field its bounds
InRange == D[1] => /\ Fits(Fld(D[2], "a")[2], 8, TRUE)
                   /\ IntLeq(Fld(D[2], "c")[2], <<0,0,0,5>>)
\* a patch touches only what it mentions
PatchLocal == (P[1] /\ j[1] = "m") =>
   /\ (~HasKey(j[2], "A") /\ ~HasKey(j[2], "a1")) => Fld(P[2], "a") = Fld(v, "a")
   /\ ~HasKey(j[2], "b") => Fld(P[2], "b") = Fld(v, "b")
   /\ ~HasKey(j[2], "c") => Fld(P[2], "c") = Fld(v, "c")
   /\ ~HasKey(j[2], "p") => Get(Fld(P[2], "f")[2], "p") = Get(Fld(v, "f")[2], "p")
   /\ ~HasKey(j[2], "z") => Fld(P[2], "e") = Fld(v, "e")
\* what is mentioned becomes what decoding gives, wherever decoding accepts the document
PatchAgrees == (P[1] /\ D[1] /\ j[1] = "m") =>
   /\ HasKey(j[2], "A") => Fld(P[2], "a") = Fld(D[2], "a")
   /\ HasKey(j[2], "b") => Fld(P[2], "b") = Fld(D[2], "b")
   /\ HasKey(j[2], "z") => Get(Fld(P[2], "e")[2], "z") = Get(Fld(D[2], "e")[2], "z")
\* a document that decodes also patches; patching twice is patching once
PatchWeaker == (D[1] /\ j[1] = "m") => P[1]
PatchIdem == P[1] => Patch(ST, P[2], j) = P
=============================================================================
