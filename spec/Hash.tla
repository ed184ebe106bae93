-------------------------------- MODULE Hash --------------------------------
(* The published definitions of FNV-1a (32 bit) and of Paul Hsieh's SuperFastHash, over sequences of    *)
(* bytes. TLC's integers are 31 bits wide, so a 32-bit word is a pair <<high, low>> of 16-bit halves.  *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise
H == 65536
Word(hi, lo) == <<hi, lo>>
Of(n) == <<(n \div H) % H, n % H>>
Add(x, y) == LET lo == x[2] + y[2] IN <<(x[1] + y[1] + lo \div H) % H, lo % H>>
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Shl(x, n) == IF n = 0 THEN x ELSE IF n >= 16 THEN <<(x[2] * 2^(n - 16)) % H, 0>>
             ELSE <<((x[1] * 2^n) % H) + x[2] \div 2^(16 - n), (x[2] * 2^n) % H>>
Shr(x, n) == IF n = 0 THEN x ELSE IF n >= 16 THEN <<0, x[1] \div 2^(n - 16)>>
             ELSE <<x[1] \div 2^n, ((x[1] * 2^(16 - n)) % H) + x[2] \div 2^n>>
\* 16777619 = 2^24 + 403
MulPrime(x) == LET lo == x[2] * 403 IN Add(Shl(x, 24), <<(x[1] * 403 + lo \div H) % H, lo % H>>)
FnvBasis == <<33052, 40389>>
FnvStep(h, b) == MulPrime(XorW(h, Of(b)))
Fnv1a(s) == FoldLeft(FnvStep, FnvBasis, s)
\* SuperFastHash: the single left-over byte is taken as signed
Signed(b) == IF b < 128 THEN Of(b) ELSE <<H - 1, H - 256 + b>>
Half(s, k) == s[k] + 256 * s[k + 1]
\* one round takes the four bytes from s[k]
Round(h, s, k) == LET h1 == Add(h, Of(Half(s, k)))
                      t == XorW(Shl(Of(Half(s, k + 2)), 11), h1)
                      h2 == XorW(Shl(h1, 16), t)
                  IN Add(h2, Shr(h2, 11))
Main(h, s) == LET n == Len(s) \div 4 IN
  <<FoldLeft(LAMBDA x, j : Round(x, s, 4 * j - 3), h, [j \in 1..n |-> j]), 4 * n + 1>>
Tail1(h, s, k) ==
  CASE Len(s) - k + 1 = 3 ->
         LET a == Add(h, Of(Half(s, k))) b == XorW(a, Shl(a, 16)) c == XorW(b, Shl(Signed(s[k + 2]), 18)) IN Add(c, Shr(c, 11))
    [] Len(s) - k + 1 = 2 -> LET a == Add(h, Of(Half(s, k))) b == XorW(a, Shl(a, 11)) IN Add(b, Shr(b, 17))
    [] Len(s) - k + 1 = 1 -> LET a == Add(h, Signed(s[k])) b == XorW(a, Shl(a, 10)) IN Add(b, Shr(b, 1))
    [] OTHER -> h
Avalanche(h) ==
  LET a == XorW(h, Shl(h, 3)) b == Add(a, Shr(a, 5)) c == XorW(b, Shl(b, 4)) d == Add(c, Shr(c, 17)) e == XorW(d, Shl(d, 25))
  IN Add(e, Shr(e, 6))
Hsieh(s) == IF s = <<>> THEN <<0, 0>> ELSE LET m == Main(Of(Len(s)), s) IN Avalanche(Tail1(m[1], s, m[2]))
=============================================================================
