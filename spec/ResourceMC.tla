----------------------------- MODULE ResourceMC -----------------------------
(* All request histories, up to a bounded number of modifications, on a small resource with a         *)
(* read-only and a subtree-read-only field, a keyed collection, an optional, a map and a validator.   *)
EXTENDS Resource
CONSTANT MaxMods
VARIABLES v, hist, last
N8 == TInt(8, TRUE)
ItT == TRec("It", <<F("id", TStr), F("n", N8)>>)
PrT == TRec("Pr", <<F("a", N8), F("b", TOpt(N8))>>)
RT == TRec("R", <<At(F("r", N8), "ro"), At(F("s", PrT), "sro"), Ck(F("k", TVec(ItT)), <<"id">>), F("o", TOpt(TVec(N8))), F("m", TMap(PrT))>>)
\* no more than two items; n = 3 is refused
MSelfErr(T, x) == CASE T[1] = "rec" /\ T[2] = "R" -> IF Len(Get(x[2], "k")[2]) > 2 THEN {"full"} ELSE {}
                    [] T[1] = "rec" /\ T[2] = "It" -> IF Get(x[2], "n") = I(3) THEN {"three"} ELSE {}
                    [] OTHER -> {}
S(t) == [t |-> t, i |-> CASE t = "0" -> 0 [] t = "1" -> 1 [] OTHER -> -1]
P(ts) == [k \in DOMAIN ts |-> S(ts[k])]
Paths == {P(ts) : ts \in {<<>>, <<"r">>, <<"s">>, <<"s", "a">>, <<"s", "b">>, <<"k">>, <<"k", "x">>, <<"k", "y">>, <<"k", "0">>, <<"k", "x", "id">>, <<"k", "x", "n">>,
          <<"o">>, <<"o", "0">>, <<"o", "1">>, <<"m">>, <<"m", "x">>, <<"m", "x", "a">>, <<"m", "x", "b">>, <<"q">>}}
M(ms) == <<"m", ms>>
It(id, n) == M(<< <<"id", Str(id)>>, <<"n", I(n)>> >>)
A(xs) == <<"a", xs>>
Bodies == {I(1), I(2), Null, M(<< <<"a", I(1)>> >>), M(<< <<"b", I(2)>> >>), It("x", 1), It("y", 2), It("y", 3), M(<< <<"n", I(2)>> >>),
           A(<<It("x", 1), It("y", 1)>>), A(<<It("x", 1), It("x", 2)>>), A(<<I(1), I(2)>>), A(<<>>), M(<< <<"x", M(<< <<"a", I(2)>> >>)>> >>),
           M(<< <<"r", I(2)>>, <<"s", M(<< <<"a", I(2)>> >>)>> >>)}
V0 == Default(RT)
None0 == [m |-> "none", p |-> <<>>, st |-> 0, v0 |-> V0, h0 |-> <<>>]
Init == v = V0 /\ hist = <<>> /\ last = None0
Do(m, p, j) ==
  LET o == Request(RT, v, m, p, j) IN
  /\ v' = o.v /\ hist' = (IF o.mark = <<>> THEN hist ELSE Append(hist, o.mark))
  /\ last' = [m |-> m, p |-> p, st |-> o.st, v0 |-> v, h0 |-> hist]
Next == /\ Len(hist) < MaxMods
        /\ \E p \in Paths : \/ \E m \in {"put", "patch", "post"} : \E j \in Bodies : Do(m, p, j)
                            \/ Do("delete", p, Null)
Spec == Init /\ [][Next]_<<v, hist, last>>
ViewV == <<v, hist, last>>

At2(x, p) == Walk(Root(RT, x), p)
Val(x, p) == LET w == At2(x, p) IN IF w[1] THEN <<TRUE, w[2].v>> ELSE <<FALSE>>
Success == last.st \in {200, 201, 204}
KeysUnique == LET k == Get(v[2], "k")[2] IN \A a, b \in DOMAIN k : a # b => Get(k[a][2], "id") # Get(k[b][2], "id")
TreeValid == Errs(RT, v) = {}
RejectedUntouched == ~Success => v = last.v0 /\ hist = last.h0
\* nothing outside the addressed node (for DELETE: its collection) changes
Scope == IF last.m = "delete" /\ last.p # <<>> THEN SubSeq(last.p, 1, Len(last.p) - 1) ELSE last.p
Related(a, b) == IsPrefix2(Texts(a), Texts(b)) \/ IsPrefix2(Texts(b), Texts(a))
Frame == \A p \in Paths : ~Related(p, IF last.m = "delete" /\ Val(v, Scope)[1] /\ At2(v, Scope)[2].T[1] = "rec" THEN last.p ELSE Scope) => Val(v, p) = Val(last.v0, p)
\* protected nodes change only through a request above them
ReadOnlyKept == /\ last.p = P(<<"r">>) => Val(v, P(<<"r">>)) = Val(last.v0, P(<<"r">>))
                /\ (Len(last.p) > 1 /\ last.p[1].t = "s") => v = last.v0
                /\ (last.p = P(<<"k", "x", "id">>)) => v = last.v0
\* every path whose value is now different is reported, and only paths related to the request are
NoMissedChange == \A p \in Paths : Val(v, p) # Val(last.v0, p) => ChangedSince(hist, Texts(p), Generation(last.h0))
NoFalseChange == \A p \in Paths : ChangedSince(hist, Texts(p), Generation(last.h0)) => Success /\ Related(p, Scope)
GenStep == Generation(hist) = Generation(last.h0) + (IF Success THEN 1 ELSE 0)
\* a keyed element is found by the key it carries, whatever its position
KeyAddresses == \A id \in {"x", "y"} : LET w == At2(v, P(<<"k", id>>)) IN w[1] => Get(w[2].v[2], "id") = Str(id)
=============================================================================
