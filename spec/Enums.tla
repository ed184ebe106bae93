-------------------------------- MODULE Enums -------------------------------
(* Enumerations: flag sets over 8 bits, contiguous ranges with iterators, and name tables.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---------------------------------------------------------------- flag sets: numbers 0..255 as sets of bits
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
All == 0..7
Bits(n) == {k \in All : (n \div Pow2[k + 1]) % 2 = 1}
RECURSIVE Num(_)
Num(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Pow2[k + 1] + Num(S \ {k})
Comp(S) == All \ S
Xor(S, R) == (S \ R) \cup (R \ S)
\* two's complement reading of a byte
Signed(n) == IF n > 127 THEN n - 256 ELSE n
\* ---------------------------------------------------------------- ranges [lo, hi)
Range(lo, hi) == [k \in 1..(hi - lo) |-> lo + k - 1]
\* ---------------------------------------------------------------- names: a table is a sequence of <<value, name>>
NameOf(tab, v, def) == IF \E k \in DOMAIN tab : tab[k][1] = v
                       THEN tab[CHOOSE k \in DOMAIN tab : tab[k][1] = v /\ \A m \in 1..(k - 1) : tab[m][1] # v][2] ELSE def
\* <<>> or <<value>>
ValueOf(tab, name) == IF \E k \in DOMAIN tab : tab[k][2] = name
                      THEN <<tab[CHOOSE k \in DOMAIN tab : tab[k][2] = name /\ \A m \in 1..(k - 1) : tab[m][2] # name][1]>> ELSE <<>>
=============================================================================
