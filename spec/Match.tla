-------------------------------- MODULE Match --------------------------------
(* kl::match on a variant and the tuple utilities. A variant is
   <<alternative, value>>; alternative -1: it holds nothing. *)
EXTENDS Integers, Sequences
Alts == <<"int", "double", "str", "base", "der", "bool", "ptr", "odd">>
Name(alt) == Alts[alt + 1]
(* the handler C++ overload resolution selects for the alternative *)
Pick(how, alt) ==
  LET n == Name(alt) IN
  CASE how = "exact" -> n
    [] how \in {"generic", "const"} -> (IF n \in {"str", "base"} THEN n ELSE "any")
    [] how = "func" -> (CASE n = "der" -> "base" [] n = "int" -> "intv" [] n = "double" -> "dblv" [] n = "bool" -> "boolv" [] OTHER -> n)
    [] how = "moveonly" -> "any"
    [] how = "throw" -> (IF n = "str" THEN "str" ELSE "any")
Ret(how, s, add) ==
  IF how # "func" THEN 10000 + add
  ELSE CASE Pick(how, s[1]) = "base" -> 1000 + s[2] [] Pick(how, s[1]) = "intv" -> 2000 + s[2] [] Pick(how, s[1]) = "str" -> 77
         [] Pick(how, s[1]) = "dblv" -> 3000 [] Pick(how, s[1]) = "boolv" -> 4000 [] OTHER -> 10000 + add
Store(alt, x) == IF Name(alt) = "bool" THEN x % 2 ELSE x
After(how, s, add, wr) ==
  IF s[1] = -1 THEN s
  ELSE IF how = "func" /\ Name(s[1]) = "str" THEN <<s[1], 77>>
  ELSE IF wr THEN <<s[1], Store(s[1], add)>> ELSE s
Throws(how, s) == how = "throw" /\ s[1] # -1 /\ Name(s[1]) = "str"
MatchOK(e, s) ==
  /\ <<e.alt, e.v>> = After(e.how, s, e.add, e.wr) /\ e.same
  /\ e.bad = (s[1] = -1) /\ e.thrown = Throws(e.how, s)
  /\ e.calls = (IF s[1] = -1 THEN <<>> ELSE << <<Pick(e.how, s[1]), s[2], TRUE>> >>)
  /\ (e.bad \/ e.thrown) \/ e.r = Ret(e.how, s, e.add)
TupleOK(e) ==
  CASE e.o = "each" -> /\ e.seen = [j \in 1..Len(e.in) |-> <<e.in[j], TRUE>>]
                       /\ e.out = [j \in 1..Len(e.in) |-> e.in[j] + (100 * j)]
    [] e.o = "ref" -> e.same /\ e.out = e.in
    [] e.o = "ne" -> e.r = (\A j \in 1..Len(e.in) : e.in[j] # e.u[j])
=============================================================================
