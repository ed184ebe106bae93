------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 text encodings of byte strings. Texts are sequences of character codes.                   *)
(* u = FALSE: standard alphabet, padded, strict; u = TRUE: URL alphabet, unpadded, up to two trailing *)
(* padding characters are ignored when decoding.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pad == 61
\* 0..63 <-> character code
Chr(v, u) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
             ELSE IF v = 62 THEN (IF u THEN 45 ELSE 43) ELSE (IF u THEN 95 ELSE 47)
Val(c, u) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71 ELSE IF c >= 48 /\ c <= 57 THEN c + 4
             ELSE IF c = (IF u THEN 45 ELSE 43) THEN 62 ELSE IF c = (IF u THEN 95 ELSE 47) THEN 63 ELSE -1
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* six-bit groups of a byte string, the last one filled up with zero bits
RECURSIVE Sextets(_)
Sextets(b) ==
  CASE Len(b) = 0 -> <<>>
    [] Len(b) = 1 -> <<b[1] \div 4, (b[1] % 4) * 16>>
    [] Len(b) = 2 -> <<b[1] \div 4, (b[1] % 4) * 16 + b[2] \div 16, (b[2] % 16) * 4>>
    [] OTHER -> <<b[1] \div 4, (b[1] % 4) * 16 + b[2] \div 16, (b[2] % 16) * 4 + b[3] \div 64, b[3] % 64>> \o Sextets(Drop(b, 3))
Padding(n) == IF n % 3 = 1 THEN <<Pad, Pad>> ELSE IF n % 3 = 2 THEN <<Pad>> ELSE <<>>
Enc(b, u) == LET s == Sextets(b) IN [i \in DOMAIN s |-> Chr(s[i], u)] \o (IF u THEN <<>> ELSE Padding(Len(b)))
\* bytes of a sequence of six-bit groups; left-over bits are dropped
RECURSIVE Octets(_)
Octets(s) ==
  CASE Len(s) < 2 -> <<>>
    [] Len(s) = 2 -> <<s[1] * 4 + s[2] \div 16>>
    [] Len(s) = 3 -> <<s[1] * 4 + s[2] \div 16, (s[2] % 16) * 16 + s[3] \div 4>>
    [] OTHER -> <<s[1] * 4 + s[2] \div 16, (s[2] % 16) * 16 + s[3] \div 4, (s[3] % 4) * 64 + s[4]>> \o Octets(Drop(s, 4))
RECURSIVE Pads(_)
Pads(t) == IF t # <<>> /\ t[Len(t)] = Pad THEN 1 + Pads(SubSeq(t, 1, Len(t) - 1)) ELSE 0
\* <<TRUE, bytes>> or <<FALSE>>
Dec(t, u) ==
  LET p == Pads(t)
      r == SubSeq(t, 1, Len(t) - p)
      v == [i \in DOMAIN r |-> Val(r[i], u)]
  IN IF (~u /\ Len(t) % 4 # 0) \/ p > 2 \/ Len(r) % 4 = 1 \/ \E i \in DOMAIN v : v[i] < 0 THEN <<FALSE>>
     ELSE <<TRUE, Octets(v)>>
=============================================================================
