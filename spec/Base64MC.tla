------------------------------ MODULE Base64MC ------------------------------
(* A coder that takes one byte at a time and keeps the left-over bits equals Enc on every byte string  *)
(* over Bytes up to MaxB; Dec inverts it; every text over Chars up to MaxT that Dec accepts stands for *)
(* what Dec returns.                                                                                  *)
EXTENDS Base64
CONSTANTS Bytes, MaxB, Chars, MaxT
VARIABLES b, out, acc, nb, t
vars == <<b, out, acc, nb, t>>
Init == b = <<>> /\ out = <<>> /\ acc = 0 /\ nb = 0 /\ t = <<>>
Byte(x) ==
  /\ t = <<>> /\ Len(b) < MaxB /\ b' = Append(b, x) /\ UNCHANGED t
  /\ CASE nb = 0 -> out' = Append(out, x \div 4) /\ acc' = x % 4 /\ nb' = 2
       [] nb = 2 -> out' = Append(out, acc * 16 + x \div 16) /\ acc' = x % 16 /\ nb' = 4
       [] OTHER -> out' = out \o <<acc * 4 + x \div 64, x % 64>> /\ acc' = 0 /\ nb' = 0
Char(c) == b = <<>> /\ Len(t) < MaxT /\ t' = Append(t, c) /\ UNCHANGED <<b, out, acc, nb>>
Next == (\E x \in Bytes : Byte(x)) \/ (\E c \in Chars : Char(c))
Spec == Init /\ [][Next]_vars
Flushed == out \o (CASE nb = 0 -> <<>> [] nb = 2 -> <<acc * 16>> [] OTHER -> <<acc * 4>>)
Text(u) == [i \in DOMAIN Flushed |-> Chr(Flushed[i], u)] \o (IF u THEN <<>> ELSE CASE nb = 0 -> <<>> [] nb = 2 -> <<Pad, Pad>> [] OTHER -> <<Pad>>)
U == {TRUE, FALSE}
Streams == \A u \in U : Text(u) = Enc(b, u)
Inverse == \A u \in U : Dec(Enc(b, u), u) = <<TRUE, b>>
Length == Len(Enc(b, FALSE)) = 4 * ((Len(b) + 2) \div 3) /\ Len(Enc(b, TRUE)) = (4 * Len(b) + 2) \div 3
\* what is accepted re-encodes to itself up to dropped bits and padding, and only from the alphabet
Accepted == \A u \in U : LET r == Dec(t, u) IN
              r[1] => LET e == Enc(r[2], TRUE) n == Len(t) - Pads(t) IN
                      /\ Len(e) = n
                      /\ \A i \in 1..n : Val(t[i], u) >= 0 /\ (i < n \/ n % 4 = 0 => Val(e[i], TRUE) = Val(t[i], u))
                      /\ Dec(e, TRUE) = r
Strict == Dec(t, FALSE)[1] => Len(t) % 4 = 0 /\ Len(Enc(Dec(t, FALSE)[2], FALSE)) = Len(t)
Alphabet == \A u \in U : \A v \in 0..63 : Val(Chr(v, u), u) = v
=============================================================================
