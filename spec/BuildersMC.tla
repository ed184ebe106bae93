----------------------------- MODULE BuildersMC -----------------------------
(* Pieces are added to a builder, the finished sequence is then taken apart: every reading tries some  *)
(* type at the current position. SkipFailed says whether a failed reading moves on (it must not).      *)
EXTENDS Builders
CONSTANTS SkipFailed, MaxLen
VARIABLES pieces, doc, pos, got, phase
vars == <<pieces, doc, pos, got, phase>>
Pieces == { <<"", "u8", I(1)>>, <<"", "str", Str("x")>>, <<"", "oi", Null>>, <<"", "oi", <<"o", I(300)>> >>, <<"", "vi", <<"a", <<I(2)>> >> >> }
Names == {"u8", "str", "oi", "vi", "i32"}
Init == pieces = <<>> /\ doc = <<"a", <<>> >> /\ pos = 0 /\ got = <<>> /\ phase = "build"
Add == /\ phase = "build" /\ Len(pieces) < MaxLen
       /\ \E p \in Pieces : /\ pieces' = Append(pieces, p)
                            /\ doc' = <<"a", Append(doc[2], Encode(BTypes[p[2]], p[3], TRUE))>>
       /\ UNCHANGED <<pos, got, phase>>
Done == phase = "build" /\ phase' = "take" /\ UNCHANGED <<pieces, doc, pos, got>>
Read == /\ phase = "take" /\ pos <= MaxLen
        /\ \E n \in Names :
             LET T == BTypes[n]
                 r == Decode(T, Elem(doc, pos), Default(T))
             IN /\ pos' = (IF SkipFailed THEN pos + 1 ELSE Advance(doc, T, pos))
                /\ got' = (IF r[1] THEN Append(got, <<n, r[2]>>) ELSE got)
        /\ UNCHANGED <<pieces, doc, phase>>
Next == Add \/ Done \/ Read
Spec == Init /\ [][Next]_vars
\* the document is what was added
BuiltOK == Built(TRUE, pieces, doc)
\* as many values have been read as the position says, the k-th of them from the k-th element
InStep == Len(got) = pos
FromPlace == \A k \in DOMAIN got : LET T == BTypes[got[k][1]] IN Decode(T, Elem(doc, k - 1), Default(T)) = <<TRUE, got[k][2]>>
\* reading an element as what was added gives what was added
GivesBack == \A k \in DOMAIN got : (k <= Len(pieces) /\ got[k][1] = pieces[k][2]) => got[k][2] = pieces[k][3]
\* past the end everything reads as null
PastEnd == \A k \in DOMAIN got : k > Len(pieces) => got[k] = <<"oi", Null>>
=============================================================================
