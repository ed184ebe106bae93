------------------------------- MODULE HashMC -------------------------------
(* The word arithmetic against integers where those suffice, the published FNV-1a vectors, and that     *)
(* FNV-1a keeps texts that differ in one byte apart (each step is a bijection).                         *)
EXTENDS Hash, TLC
CONSTANTS Bytes, MaxLen, Mutant
VARIABLES s
\* reference: shifts and products built from doubling and halving only
RECURSIVE Dbl(_, _), Hlv(_, _), Times(_, _)
Dbl(x, n) == IF n = 0 THEN x ELSE Dbl(Add(x, x), n - 1)
Hlv(x, n) == IF n = 0 THEN x ELSE Hlv(<<x[1] \div 2, ((x[1] % 2) * 32768) + x[2] \div 2>>, n - 1)
Times(x, n) == IF n = 0 THEN <<0, 0>> ELSE IF n % 2 = 1 THEN Add(x, Times(Add(x, x), n \div 2)) ELSE Times(Add(x, x), n \div 2)
Step(h, b) == IF Mutant = "fnv1" THEN XorW(MulPrime(h), Of(b)) ELSE FnvStep(h, b)
ASSUME Fnv1a(<<>>) = <<33052, 40389>>                                   \* 811c9dc5
ASSUME Fnv1a(<<97>>) = <<58380, 10540>>                                 \* "a": e40c292c
ASSUME Fnv1a(<<98>>) = <<59148, 11749>>                                 \* "b": e70c2de5
ASSUME Fnv1a(<<102, 111, 111, 98, 97, 114>>) = <<49052, 63848>>         \* "foobar": bf9cf968
ASSUME Hsieh(<<81, 87, 69, 65, 83, 68, 90, 88, 67>>) = <<44728, 24588>>  \* "QWEASDZXC": aeb8600c
ASSUME Hsieh(<<81, 87, 69, 65, 83, 68, 90, 88>>) = <<57524, 14442>>      \* e0b4386a
ASSUME Hsieh(<<81, 87, 69, 65, 83, 68, 90>>) = <<54329, 53068>>          \* d439cf4c
ASSUME Hsieh(<<81, 87, 69, 65, 83, 68>>) = <<31215, 16842>>              \* 79ef41ca
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Words == {Fnv1a(s), Hsieh(s)}
Arith == \A w \in Words :
  /\ \A n \in 0..31 : Shl(w, n) = Dbl(w, n) /\ Shr(w, n) = Hlv(w, n)
  /\ MulPrime(w) = Times(w, 16777619)
  /\ \A x \in 1..2 : w[x] \in 0..(H - 1)
Stepwise == s # <<>> => Fnv1a(s) = Step(Fnv1a(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Apart == \A k \in DOMAIN s : \A b \in Bytes : b # s[k] => Fnv1a([s EXCEPT ![k] = b]) # Fnv1a(s)
=============================================================================
