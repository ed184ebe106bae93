------------------------------- MODULE EnumsMC ------------------------------
(* The algebra of flag sets on all pairs of bytes; iterators over a range as a machine: distance,      *)
(* ordering and stepping agree; name tables are bijections where names and values are unique.          *)
EXTENDS Enums
CONSTANT Deep
Lo == -3
Hi == 4
VARIABLES a, b, p, q
vars == <<a, b, p, q>>
Bytes == IF Deep THEN 0..255 ELSE {0, 1, 2, 3, 7, 8, 64, 85, 127, 128, 129, 170, 200, 254, 255}
Init == a \in Bytes /\ b \in Bytes /\ p = Lo /\ q = Lo
Move == \/ p < Hi /\ p' = p + 1 /\ UNCHANGED q
        \/ p > Lo /\ p' = p - 1 /\ UNCHANGED q
        \/ q < Hi /\ q' = q + 1 /\ UNCHANGED p
        \/ \E n \in (Lo - q)..(Hi - q) : q' = q + n /\ UNCHANGED p
Next == a = 0 /\ b = 0 /\ Move /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Algebra == LET A == Bits(a) B == Bits(b) IN
  /\ Num(A) = a /\ Bits(Num(A)) = A /\ Num(Comp(A)) = 255 - a
  /\ Num(A \cup B) + Num(A \cap B) = a + b
  /\ Xor(A, B) = (A \cup B) \ (A \cap B) /\ Xor(Xor(A, B), B) = A
  /\ Comp(A \cup B) = Comp(A) \cap Comp(B)
  /\ (B \subseteq A) <=> (A \cap B = B)
Walks == LET R == Range(Lo, Hi) IN
  /\ Len(R) = Hi - Lo /\ \A k \in DOMAIN R : R[k] = Lo + k - 1
  /\ (p < q) = (q - p > 0) /\ (p = q) = (p - q = 0)
Tab == <<<<0, "A">>, <<5, "bb">>, <<-1, "C">>, <<5, "D">>>>
Names == /\ \A k \in DOMAIN Tab : ValueOf(Tab, Tab[k][2]) = <<Tab[k][1]>>
         /\ \A v \in {0, -1, 5} : ValueOf(Tab, NameOf(Tab, v, "?")) = <<v>>
         /\ NameOf(Tab, 7, "?") = "?" /\ ValueOf(Tab, "b") = <<>>
=============================================================================
