------------------------------- MODULE ExcInfo ------------------------------
(* Exception details. An object is a stack of <<tag, value>>, newest first, and where it was made;     *)
(* objects are values: no operation on one affects another, and throwing, catching and rethrowing     *)
(* carry them unchanged.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty(loc) == [loc |-> loc, st |-> <<>>]
Set(x, tag, v) == [x EXCEPT !.st = <<<<tag, v>>>> \o @]
Has(x, tag) == \E i \in DOMAIN x.st : x.st[i][1] = tag
Top(x, tag) == CHOOSE i \in DOMAIN x.st : x.st[i][1] = tag /\ \A k \in 1..(i - 1) : x.st[k][1] # tag
Unset(x, tag) == IF ~Has(x, tag) THEN x
                 ELSE LET i == Top(x, tag) IN [x EXCEPT !.st = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
\* what a query returns: <<>> or <<value>>
Get(x, tag) == IF Has(x, tag) THEN <<x.st[Top(x, tag)][2]>> ELSE <<>>
=============================================================================
