------------------------------- MODULE BinRW -------------------------------
(* A cursor over a byte buffer with a sticky error mark, and the binary encoding of values.           *)
(* Bytes are 0..255; a value is                                                                       *)
(*   <<"n", bytes>> number (least significant byte first), <<"s", bytes>> text, <<"l", seq>> vector,  *)
(*   <<"t", seq>> set, <<"m", seq of <<k, v>> >> map (both in iteration order), <<"p", seq>> pair or  *)
(*   struct, <<"0">> / <<"o", x>> optional, <<"v", index, x>> variant.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- types
Num(n) == <<"num", n, "le">>
Big(n) == <<"num", n, "be">>
Text == <<"str">>
Vec(T) == <<"vec", T>>
Set(T) == <<"set", T>>
Map(K, V) == <<"map", K, V>>
Rec(Ts) == <<"rec", Ts>>                 \* pair, or a struct read and written member by member
Opt(T) == <<"opt", T>>
Var(Ts) == <<"var", Ts>>

\* ---------------------------------------------------------------- encoding
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
U32(k) == <<k % 256, (k \div 256) % 256, k \div 65536, 0>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Enc(_, _)
Enc(T, v) ==
  CASE T[1] = "num" -> IF T[3] = "be" THEN Reverse2(v[2]) ELSE v[2]
    [] T[1] = "str" -> U32(Len(v[2])) \o v[2]
    [] T[1] \in {"vec", "set"} -> U32(Len(v[2])) \o Cat([i \in DOMAIN v[2] |-> Enc(T[2], v[2][i])])
    [] T[1] = "map" -> U32(Len(v[2])) \o Cat([i \in DOMAIN v[2] |-> Enc(T[2], v[2][i][1]) \o Enc(T[3], v[2][i][2])])
    [] T[1] = "rec" -> Cat([i \in DOMAIN v[2] |-> Enc(T[2][i], v[2][i])])
    [] T[1] = "opt" -> IF v[1] = "0" THEN <<0>> ELSE <<1>> \o Enc(T[2], v[2])
    [] T[1] = "var" -> <<v[2]>> \o Enc(T[2][v[2] + 1], v[3])

\* ---------------------------------------------------------------- decoding
\* Dec(T, b, at): <<TRUE, value, next>> or <<FALSE>>, reading b from offset at (0-based)
Bad == <<FALSE>>
Fit(b, at, n) == at + n <= Len(b)
Bytes(b, at, n) == SubSeq(b, at + 1, at + n)
\* a count; whatever cannot fit into any buffer considered here is 1000000
Count(q) == IF q[4] > 0 \/ q[3] > 15 THEN 1000000 ELSE q[1] + 256 * q[2] + 65536 * q[3]
RECURSIVE Dec(_, _, _)
RECURSIVE DecSeq(_, _, _)      \* a given sequence of types
RECURSIVE DecRep(_, _, _, _)   \* k times the same type
DecSeq(Ts, b, at) ==
  IF Ts = <<>> THEN <<TRUE, <<>>, at>>
  ELSE LET r == Dec(Head(Ts), b, at) IN
       IF ~r[1] THEN Bad
       ELSE LET t == DecSeq(Tail(Ts), b, r[3]) IN IF t[1] THEN <<TRUE, <<r[2]>> \o t[2], t[3]>> ELSE Bad
DecRep(T, k, b, at) ==
  IF k = 0 THEN <<TRUE, <<>>, at>>
  ELSE LET r == Dec(T, b, at) IN
       IF ~r[1] THEN Bad
       ELSE LET t == DecRep(T, k - 1, b, r[3]) IN IF t[1] THEN <<TRUE, <<r[2]>> \o t[2], t[3]>> ELSE Bad
\* the first of equal keys wins
RECURSIVE FirstOnly(_, _)
FirstOnly(s, seen) == IF s = <<>> THEN <<>>
                      ELSE IF Head(s)[1] \in seen THEN FirstOnly(Tail(s), seen)
                      ELSE <<Head(s)>> \o FirstOnly(Tail(s), seen \cup {Head(s)[1]})
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen)
                 ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})
Tag(t, r) == IF r[1] THEN <<TRUE, <<t, r[2]>>, r[3]>> ELSE Bad
Dec(T, b, at) ==
  CASE T[1] = "num" -> IF ~Fit(b, at, T[2]) THEN Bad
                       ELSE <<TRUE, <<"n", IF T[3] = "be" THEN Reverse2(Bytes(b, at, T[2])) ELSE Bytes(b, at, T[2])>>, at + T[2]>>
    [] T[1] \in {"str", "vec", "set", "map"} ->
         IF ~Fit(b, at, 4) THEN Bad
         ELSE LET k == Count(Bytes(b, at, 4)) IN
              IF k > Len(b) THEN Bad                      \* every element takes at least one byte
              ELSE (CASE T[1] = "str" -> IF Fit(b, at + 4, k) THEN <<TRUE, <<"s", Bytes(b, at + 4, k)>>, at + 4 + k>> ELSE Bad
                     [] T[1] = "vec" -> Tag("l", DecRep(T[2], k, b, at + 4))
                     [] T[1] = "set" -> LET r == DecRep(T[2], k, b, at + 4) IN IF r[1] THEN <<TRUE, <<"t", Uniq(r[2], {})>>, r[3]>> ELSE Bad
                     [] T[1] = "map" -> LET r == DecRep(Rec(<<T[2], T[3]>>), k, b, at + 4)
                                        IN IF r[1] THEN <<TRUE, <<"m", FirstOnly([i \in DOMAIN r[2] |-> r[2][i][2]], {})>>, r[3]>> ELSE Bad)
    [] T[1] = "rec" -> Tag("p", DecSeq(T[2], b, at))
    [] T[1] = "opt" -> IF ~Fit(b, at, 1) THEN Bad
                       ELSE IF b[at + 1] = 0 THEN <<TRUE, <<"0">>, at + 1>>
                       ELSE Tag("o", Dec(T[2], b, at + 1))
    [] T[1] = "var" -> IF ~Fit(b, at, 1) THEN Bad
                       ELSE IF b[at + 1] >= Len(T[2]) THEN Bad
                       ELSE LET r == Dec(T[2][b[at + 1] + 1], b, at + 1) IN IF r[1] THEN <<TRUE, <<"v", b[at + 1], r[2]>>, r[3]>> ELSE Bad

\* equality of values up to the iteration order of sets and maps
RECURSIVE Same(_, _, _)
Same(T, x, y) ==
  /\ x[1] = y[1]
  /\ CASE T[1] \in {"num", "str"} -> x[2] = y[2]
       [] T[1] = "vec" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : Same(T[2], x[2][i], y[2][i])
       [] T[1] = "set" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : \E k \in DOMAIN y[2] : Same(T[2], x[2][i], y[2][k])
       [] T[1] = "map" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : \E k \in DOMAIN y[2] : Same(T[2], x[2][i][1], y[2][k][1]) /\ Same(T[3], x[2][i][2], y[2][k][2])
       [] T[1] = "rec" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : Same(T[2][i], x[2][i], y[2][i])
       [] T[1] = "opt" -> x[1] = "0" \/ Same(T[2], x[2], y[2])
       [] T[1] = "var" -> x[2] = y[2] /\ Same(T[2][x[2] + 1], x[3], y[3])

\* ---------------------------------------------------------------- the cursor
\* s = [b |-> buffer, p |-> position, e |-> error mark]
Left(s) == Len(s.b) - s.p
Fail(s) == [s EXCEPT !.e = TRUE]
\* operation of n bytes at the cursor that moves it
CanTake(s, n) == ~s.e /\ n <= Left(s)
Take(s, n) == IF CanTake(s, n) THEN [s EXCEPT !.p = @ + n] ELSE Fail(s)
Skip(s, n) == IF s.e THEN s ELSE IF n > Left(s) \/ -n > s.p THEN Fail(s) ELSE [s EXCEPT !.p = @ + n]
Overwrite(b, at, xs) == [i \in DOMAIN b |-> IF i > at /\ i <= at + Len(xs) THEN xs[i - at] ELSE b[i]]
Put(s, xs) == IF CanTake(s, Len(xs)) THEN [s EXCEPT !.p = @ + Len(xs), !.b = Overwrite(@, s.p, xs)] ELSE Fail(s)
=============================================================================
