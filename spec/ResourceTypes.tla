---------------------------- MODULE ResourceTypes ----------------------------
(* The resources of harness/res_types.hpp and what their validators refuse.                            *)
EXTENDS Resource
Ro(f) == At(f, "ro")
Sro(f) == At(f, "sro")
PtT == TRec("Pt", <<F("x", TI32), F("y", TOpt(TStr))>>)
LimT == TRec("Lim", <<F("min", TI32), Ini(F("max", TI32), I(5))>>)
CpyT == TRec("Cpy", <<F("q", TI32), F("w", TStr)>>)
ItemT == TRec("Item", <<F("id", TStr), F("n", TI32), F("pt", TOpt(PtT)), F("tags", TVec(TI32))>>)
NumItemT == TRec("NumItem", <<F("id", TI32), Ro(F("name", TStr)), F("lim", TOpt(LimT))>>)
TwoKeyT == TRec("TwoKey", <<F("a", TStr), Ren(F("b", TStr), "bee"), F("n", TI32)>>)
KeyST == TRec("KeyS", <<F("s", TStr), F("aux", TI32)>>)
SItemT == TRec("SItem", <<F("n", TI32), F("k", KeyST), F("m", TMap(TI32))>>)
GroupT == TRec("Group", <<F("name", TStr), Ck(F("items", TVec(ItemT)), <<"id">>), F("by", TMap(ItemT)), F("plain", TVec(ItemT))>>)
Ints == TVec(TI32)
R1T == TRec("R1", <<
  F("i", TInt(8, TRUE)), F("s", TStr), F("mode", TEnum(<<"off", "on", "dimmed">>)), F("lim", LimT), F("olim", TOpt(LimT)), F("oi", TOpt(TI32)), F("vec", Ints),
  F("lims", TVec(LimT)), F("m", TMap(TI32)), F("ml", TMap(LimT)), F("arr", TArr(3, TI32)), F("ov", TOpt(Ints)), F("om", TOpt(TMap(PtT))),
  F("li", TLst(TI32)), F("dq", TVec(PtT)), F("tp", TTup(<<TI32, TI32>>)), F("vv", TVec(Ints)), F("vo", TVec(TOpt(TI32))), F("mo", TMap(TOpt(PtT))),
  F("um", TMap(TVec(PtT))), F("ap", TArr(2, PtT)), F("cpy", CpyT), F("cpys", TVec(CpyT)), F("oc", TOpt(CpyT))>>)
CoreT == TRec("Core", <<F("a", TI32), Ro(F("b", TI32)), F("o", TOpt(TI32)), F("v", Ints), F("m", TMap(TI32))>>)
MidT == TRec("Mid", <<F("p", CoreT), Ro(F("ro", CoreT)), Sro(F("sro", CoreT)), Ro(Sro(F("both", CoreT))), Ro(F("ri", TI32)), Sro(F("sv", TVec(CoreT)))>>)
R2T == TRec("R2", <<
  F("free", TI32), Ro(F("ro", TStr)), Ro(F("rov", Ints)), Sro(F("srov", Ints)), Ro(F("rom", TMap(TI32))), Sro(F("srom", TMap(PtT))), Ro(F("oro", TOpt(CoreT))),
  Sro(F("osro", TOpt(CoreT))), Ro(Ck(F("krov", TVec(ItemT)), <<"id">>)), Sro(Ck(F("ksrov", TVec(ItemT)), <<"id">>)), F("mid", MidT), F("mids", TVec(MidT)), F("mm", TMap(MidT)),
  Ro(F("roa", TArr(2, TI32))), Ro(F("roo", TOpt(TI32))), Sro(F("osv", TOpt(TVec(CoreT)))), Sro(F("smid", MidT)), Sro(F("srol", TLst(TI32))),
  Ro(F("rosv", TOpt(TVec(CoreT)))), Sro(F("srmv", TMap(TVec(CoreT)))), Sro(F("srvm", TVec(TMap(TI32)))), Ro(F("rovm", TVec(TMap(TI32)))), Ro(F("rvo", TVec(TOpt(TI32))))>>)
Fix(k) == <<"r", << <<"id", Str(k)>>, <<"n", I(0)>>, <<"pt", Null>>, <<"tags", <<"a", <<>> >> >> >> >>
R3T == TRec("R3", <<
  Ck(F("groups", TVec(GroupT)), <<"name">>), Ck(F("nums", TVec(NumItemT)), <<"id">>), Ck(F("two", TLst(TwoKeyT)), <<"a", "b">>),
  Ck(F("ss", TVec(SItemT)), <<"k">>), Ini(Ck(F("fixed", TArr(2, ItemT)), <<"id">>), <<"a", <<Fix("k1"), Fix("k2")>> >>),
  F("mg", TMap(GroupT)), F("og", TOpt(GroupT)), F("unk", TVec(ItemT)), F("vvi", TVec(TVec(ItemT))), Ck(F("lst", TLst(ItemT)), <<"id">>)>>)
BagT == TRec("Bag", <<Ini(F("xs", Ints), <<"a", <<I(1)>> >>), F("ms", TMap(TI32)), Ini(F("need", TOpt(TI32)), <<"o", I(1)>>)>>)
VetoT == TRec("Veto", <<F("v", TI32)>>)
MustT == TRec("Must", <<Ini(F("v", TI32), I(1))>>)
KVT == TRec("KV", <<F("id", TStr), F("v", TI32)>>)
FlT == TRec("Fl", <<F("fx", TI32), F("fy", TOpt(TI32))>>)
R4T == TRec("R4", <<
  Ren(F("named", TI32), "wire"), Al(F("aliased", TOpt(LimT)), <<"older">>), At(F("fl", FlT), "flatten"), At(F("rest", TMap(TI32)), "extra"), F("bag", BagT),
  Ren(F("bags", TVec(BagT)), "b-s"), F("mb", TMap(BagT)), F("ob", TOpt(BagT)), F("vetos", TVec(VetoT)), F("ve", TOpt(VetoT)), F("mve", TMap(TOpt(VetoT))),
  Ini(F("must", TOpt(MustT)), <<"o", <<"r", << <<"v", I(1)>> >> >> >>), F("musts", TVec(TOpt(MustT))), F("ovv", TOpt(TVec(VetoT))), At(F("sum", TI32), "allowmissing"),
  Ck(F("kvs", TVec(KVT)), <<"id">>), Ck(F("kvl", TLst(KVT)), <<"id">>), F("kvm", TMap(KVT))>>)
Roots == [R1 |-> R1T, R2 |-> R2T, R3 |-> R3T, R4 |-> R4T]

M(v, n) == Get(v[2], n)
If(c, msg) == IF c THEN {msg} ELSE {}
RSelfErr(T, v) ==
  CASE T[1] = "rec" /\ T[2] = "Lim" -> If(~IntLeq(M(v, "min")[2], M(v, "max")[2]), "min above max")
    [] T[1] = "rec" /\ T[2] = "Cpy" -> If(M(v, "q") = I(13), "thirteen") \cup If(M(v, "q") = I(77), "boom")
    [] T[1] = "rec" /\ T[2] = "Item" -> If(M(v, "n") = I(13), "thirteen") \cup If(M(v, "n") = I(77), "boom")
    [] T[1] = "rec" /\ T[2] = "Bag" -> If(M(v, "xs")[2] = <<>>, "xs empty") \cup If(Len(M(v, "xs")[2]) + Len(M(v, "ms")[2]) > 4, "bag full")
                                       \cup If(IsNull(M(v, "need")), "need unset")
    [] T[1] = "rec" /\ T[2] = "Veto" -> If(M(v, "v") = I(5), "vetoed")
    [] T[1] = "rec" /\ T[2] = "R4" -> If(M(v, "sum") /= I(0) /\ M(v, "sum") /= M(v, "named"), "sum and named differ") \cup If(Len(M(v, "bags")[2]) > 2, "bags")
    [] T \in {TVec(VetoT), TVec(KVT), TLst(KVT)} -> If(Len(v[2]) = 2, "no pairs")
    [] T = TMap(KVT) -> If(Len(v[2]) = 1, "not alone")
    [] T = TOpt(MustT) -> If(IsNull(v), "must be set")
    [] OTHER -> {}
=============================================================================
