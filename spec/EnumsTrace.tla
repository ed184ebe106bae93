----------------------------- MODULE EnumsTrace -----------------------------
(* Recorded results of enum_set, the bit mask operators, enum_range and the reflector against          *)
(* Enums.tla; every event stands alone.                                                               *)
EXTENDS Enums, Json, IOUtils
VARIABLES i, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* declared ranges [lo, hi)
Ranges == [e1 |-> <<2, 9>>, e2 |-> <<0, 3>>, e3 |-> <<-3, 5>>, e4 |-> <<250, 255>>, e5 |-> <<3, 10>>, e6 |-> <<-5, 3>>, e7 |-> <<7, 8>>]
Tabs == [n1 |-> <<<<0, "A">>, <<1, "bb">>, <<2, "C">>>>,
         n2 |-> <<<<1, "one">>, <<5, "five">>, <<9, "nine">>>>,
         n3 |-> <<<<0, "z">>, <<3, "t">>, <<2, "d">>>>,
         n4 |-> <<<<0, "a">>, <<2, "c">>, <<1, "b">>, <<3, "dd">>>>,
         n5 |-> <<<<-1, "neg">>, <<0, "zero">>, <<1, "pos">>>>,
         n6 |-> <<<<0, "only">>>>,
         n7 |-> <<<<0, "p">>, <<1, "q">>, <<1, "r">>, <<3, "s">>>>,
         n8 |-> <<<<0, "k0">>, <<1, "k1">>, <<2, "k2">>, <<3, "k3">>, <<4, "k4">>, <<5, "k5">>>>,
         n9 |-> <<<<200, "hi">>, <<100, "mid">>, <<0, "lo">>>>]
BinOK(e) == LET A == Bits(e.a) B == Bits(e.b) IN
  /\ e.and = Num(A \cap B) /\ e.or = Num(A \cup B) /\ e.xor = Num(Xor(A, B)) /\ e.not = Num(Comp(A))
SetOK(e) == LET A == Bits(e.a) B == Bits(e.b) IN
  /\ BinOK(e)
  /\ e.any = (A \cap B # {}) /\ e.all = (B \subseteq A) /\ e.test = (B \subseteq A)
  /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.bool = (e.a # 0)
  /\ e.lt = (IF e.w = "s" THEN Signed(e.a) < Signed(e.b) ELSE e.a < e.b)
MaskOK(e) == /\ BinOK(e) /\ e.chk = (Bits(e.a) \cap Bits(e.b) # {})
             /\ e.shl = Num({k + e.n : k \in {j \in Bits(e.a) : j + e.n < 8}})
             /\ e.shr = Num({k - e.n : k \in {j \in Bits(e.a) : j >= e.n}})
             /\ e.plus = e.a /\ e.inc = (e.a + 1) % 256
ItOK(e) == /\ e.d = e.p - e.q /\ e.rd = e.q - e.p
           /\ e.lt = (e.p < e.q) /\ e.gt = (e.p > e.q) /\ e.le = (e.p <= e.q) /\ e.ge = (e.p >= e.q) /\ e.eq = (e.p = e.q) /\ e.ne = (e.p # e.q)
           /\ e.at = e.p /\ e.add = e.p + e.n /\ e.radd = e.p + e.n /\ e.idx = e.p + e.n /\ e.sub = e.p - e.n /\ e.addeq = e.p + e.n /\ e.subeq = e.p - e.n
           /\ e.pre = <<e.p + 1, e.p + 1>> /\ e.post = <<e.p, e.p + 1>> /\ e.pred = <<e.p - 1, e.p - 1>> /\ e.postd = <<e.p, e.p - 1>>
RngOK(e) == LET r == Ranges[e.E] IN
  /\ e.vals = Range(r[1], r[2]) /\ e.back = [k \in 1..(r[2] - r[1]) |-> r[2] - k]
  /\ e.cnt = r[2] - r[1] /\ e.min = r[1] /\ e.max = r[2] /\ e.dist = r[2] - r[1]
  /\ e.each = Range(r[1], r[2])
  /\ \A k \in DOMAIN e.inr : e.inr[k][2] = (e.inr[k][1] >= r[1] /\ e.inr[k][1] < r[2])
NameOK(e) == LET t == Tabs[e.E] IN
  /\ e.cnt = Len(t) /\ e.vals = [k \in DOMAIN t |-> t[k][1]]
  /\ \A k \in DOMAIN e.ts : e.ts[k][2] = NameOf(t, e.ts[k][1], e.def) /\ e.ts[k][3] = NameOf(t, e.ts[k][1], "unknown <" \o e.E \o ">")
  /\ \A k \in DOMAIN e.fs : e.fs[k][2] = ValueOf(t, e.fs[k][1])
EvOK(e) == CASE e.o = "set" -> SetOK(e) [] e.o = "mask" -> MaskOK(e) [] e.o = "smask" -> BinOK(e) /\ e.chk = (Bits(e.a) \cap Bits(e.b) # {}) [] e.o = "it" -> ItOK(e) [] e.o = "rng" -> RngOK(e) [] e.o = "name" -> NameOK(e) [] OTHER -> FALSE
Init == i = 1 /\ l = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ LET bad == {k \in DOMAIN Traces[i].ev : ~EvOK(Traces[i].ev[k])} IN
        bad # {} => PrintT(<<"REJ", i, CHOOSE k \in bad : \A m \in bad : k <= m>>)
     /\ i' = i + 1 /\ l' = 0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 0
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
