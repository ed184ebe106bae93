------------------------------ MODULE ViewsMC ------------------------------
(* Two documents of two cells each and two views, with an implementation's choice of what assigning   *)
(* a view does: Rebind (point at the other node) or, with Rebind = FALSE, write through the node the  *)
(* view is bound to - the reference semantics of a YAML node.  Only the first keeps the documents.    *)
EXTENDS Views
CONSTANTS Rebind
VARIABLES cell, bound, want
\* cells 1,2: members a,b of document 1; 3,4: of document 2; 0 is "not bound"
Word(c) == CASE c = 1 -> "one" [] c = 2 -> "two" [] c = 3 -> "three" [] c = 4 -> "four"
Start == [c \in 1..4 |-> <<"s", Word(c)>>]
Denotes(v) == IF bound[v] = 0 THEN Null ELSE cell[bound[v]]
Init == cell = [c \in 1..4 |-> <<"s", Word(c)>>] /\ bound = [v \in 1..2 |-> 0] /\ want = [v \in 1..2 |-> Null]
\* view v takes on node c
Take(v, c) == IF Rebind \/ bound[v] = 0 THEN bound' = [bound EXCEPT ![v] = c] /\ cell' = cell
              ELSE cell' = [cell EXCEPT ![bound[v]] = cell[c]] /\ bound' = [bound EXCEPT ![v] = c]
Bind == \E v \in 1..2, c \in 1..4 : Take(v, c) /\ want' = [want EXCEPT ![v] = Start[c]]
Assign == \E v \in 1..2 : LET w == 3 - v IN bound[w] # 0 /\ Take(v, bound[w]) /\ want' = [want EXCEPT ![v] = want[w]]
Next == Bind \/ Assign
Spec == Init /\ [][Next]_<<cell, bound, want>>
DocumentsKept == \A c \in 1..4 : cell[c] = Start[c]
DenoteLatest == \A v \in 1..2 : Denotes(v) = want[v]
=============================================================================
