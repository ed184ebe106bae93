----------------------------- MODULE SerdeTypes -----------------------------
(* The declared types of harness/serde_types.hpp, as their KL_REFLECT_STRUCT declarations promise.   *)
EXTENDS Serde

Big(s, k) == IF k >= 0 THEN <<s, 0, k \div B24, k % B24>> ELSE <<>>
Lim(k) == IF k < 0 THEN <<1, 0, 0, -k>> ELSE <<0, 0, 0, k>>
B(v) == <<"b", v>>
ColorT == TEnum(<<"red", "green", "navy">>)
FlagT == TSet(<<"fa", "fb", "fc">>)
i8 == TInt(8, TRUE)
u8 == TInt(8, FALSE)
i16 == TInt(16, TRUE)
u16 == TInt(16, FALSE)
u32 == TInt(32, FALSE)
i64 == TInt(64, TRUE)
u64 == TInt(64, FALSE)
OI == TOpt(TI32)
ScalarsT == TRec("Scalars", <<
  F("b", TBool), F("i8", i8), F("u8", u8), F("i16", i16), F("u16", u16), F("i32", TI32), F("u32", u32), F("i64", i64), F("u64", u64),
  F("d", TDbl), F("f", TFlt), F("s", TStr), F("c", ColorT), F("r", TRaw(8, TRUE)), F("h", THex)>>)
BoxesT == TRec("Boxes", <<
  F("oi", OI), F("os", TOpt(TStr)), F("v", TVec(TI32)), F("vo", TVec(OI)), F("m", TMap(TI32)), F("mo", TMap(OI)), F("um", TMap(TI32)),
  F("t", TTup(<<TI32, TStr, OI>>)), F("p", TTup(<<TI32, TBool>>)), F("a", TArr(3, TI32)), F("ao", TArr(2, OI)), F("es", FlagT),
  F("dq", TVec(u8)), F("li", TVec(TBool))>>)
InnerT == TRec("Inner", <<F("x", TI32), F("y", TOpt(TStr))>>)
NestT == TRec("Nest", <<
  F("in", InnerT), F("vi", TVec(InnerT)), F("mi", TMap(InnerT)), F("oi", TOpt(InnerT)), F("ti", TTup(<<InnerT, TI32>>)),
  F("vv", TVec(TVec(TI32))), F("mv", TMap(TVec(InnerT))), F("ov", TOpt(TVec(TOpt(InnerT)))), F("ai", TArr(2, InnerT))>>)
DerivedT == TRec("Derived", <<F("ba", TI32), F("bs", TStr), F("bo", OI), F("dx", TI32)>>)
NamesT == TRec("Names", <<
  Ren(F("ren", TI32), "renamed"), Al(F("al", TI32), <<"al2", "al3">>), Al(Ren(F("both", TI32), "r2"), <<"r2old", "both">>),
  Al(F("oal", OI), <<"oal2">>)>>)
DefsT == TRec("Defs", <<
  Ini(Dv(F("def", TI32), I(42)), I(1)), Ini(Dv(F("sdef", TStr), Str("dflt")), Str("init")), Dv(F("odef", OI), <<"o", I(7)>>),
  Ini(At(F("miss", TI32), "allowmissing"), I(11)), Ini(At(F("omiss", OI), "allowmissing"), <<"o", I(12)>>),
  Ini(At(Dv(F("defmiss", TI32), I(5)), "allowmissing"), I(13)), Ini(Al(Ren(Dv(F("adef", TI32), I(6)), "a_def"), <<"adef2">>), I(14)),
  Dv(F("idef", InnerT), <<"r", << <<"x", I(3)>>, <<"y", <<"o", Str("dd")>> >> >> >>),
  Ini(At(F("vmiss", TVec(TI32)), "allowmissing"), <<"a", <<I(1), I(2)>> >>), F("plain", TI32),
  Ini(At(Al(F("amiss", TI32), <<"amiss2">>), "allowmissing"), I(15))>>)
SkipsT == TRec("Skips", <<
  Ini(At(At(F("sk", TI32), "skipser"), "skipde"), I(3)), Ini(At(At(F("sks", TI32), "skipser"), "allowmissing"), I(4)),
  Ini(At(F("skd", TI32), "skipde"), I(5)), At(F("sin", OI), "skipnull"), At(F("en", OI), "emitnull"),
  At(Dv(F("sie", TStr), Str("")), "skipempty"), At(At(F("vie", TVec(TI32)), "skipempty"), "allowmissing"),
  At(At(F("mie", TMap(TI32)), "skipempty"), "allowmissing"), F("plain", OI), Ren(At(F("eni", TOpt(InnerT)), "emitnull"), "eni_r"),
  At(Dv(F("both", TOpt(TStr)), <<"o", Str("bd")>>), "emitnull")>>)
ValsT == TRec("Vals", <<
  Vd(F("rng", TI32), <<"range", Lim(-5), Lim(10)>>), Vd(F("ge", TI32), <<"ge", Lim(0)>>), Vd(F("le", TI32), <<"le", Lim(100)>>),
  Ini(Vd(F("ne", TStr), <<"nonempty">>), Str("q")), Ini(Dv(Vd(F("rngdef", TI32), <<"range", Lim(1), Lim(5)>>), I(99)), I(1)),
  Ini(Vd(F("eng", OI), <<"set">>), <<"o", I(1)>>), Ini(Vd(F("two", TI32), <<"both", Lim(1), Lim(4)>>), I(1)),
  Ini(At(Vd(F("rngmiss", TI32), <<"range", Lim(0), Lim(9)>>), "allowmissing"), I(50)),
  Ini(Ren(Vd(F("vne", TVec(TI32)), <<"nonempty">>), "v_ne"), <<"a", <<I(1)>> >>),
  Vd(F("big", i64), <<"range", <<1, 0, 256, 0>>, <<0, 0, 256, 0>> >>)>>)
FlatInFields == <<F("fa", TI32), F("fb", OI), Dv(F("fc", TI32), I(8)), Al(Ren(F("fd", TI32), "fdd"), <<"fdz">>),
                  Ini(At(Vd(F("fe", TI32), <<"range", Lim(0), Lim(50)>>), "allowmissing"), I(21))>>
FlatInT == TRec("FlatIn", FlatInFields)
FlatT == TRec("Flat", <<F("a", TI32), At(F("in", FlatInT), "flatten"), Ini(At(F("z", TI32), "allowmissing"), I(31))>>)
FlatMidT == TRec("FlatMid", <<F("q", OI), At(F("deep", FlatInT), "flatten")>>)
FlatDeepT == TRec("FlatDeep", <<At(F("mid", FlatMidT), "flatten"), F("p", TI32)>>)
ExtraTT == TRec("Extra", <<F("a", TI32), Al(F("b", TI32), <<"bb">>), At(F("ex", TMap(TI32)), "extra"),
  Ini(At(F("hidden", TI32), "skipde"), I(41)), Ini(At(At(F("silent", TI32), "skipser"), "allowmissing"), I(42))>>)
ExtraRecT == TRec("ExtraRec", <<F("id", TStr), At(F("ex", TMap(InnerT)), "extra")>>)
ExtraOptT == TRec("ExtraOpt", <<At(At(F("ex", TMap(OI)), "extra"), "skipempty"), F("o", OI)>>)
FlatExtraT == TRec("FlatExtra", <<F("a", TI32), At(F("in", FlatInT), "flatten"), At(F("ex", TMap(TI32)), "extra")>>)
InnerExtraT == TRec("InnerExtra", <<F("b", TI32), At(F("ex", TMap(TI32)), "extra")>>)
FlatInnerExtraT == TRec("FlatInnerExtra", <<F("a", TI32), At(F("ie", InnerExtraT), "flatten")>>)
ComboT == TRec("Combo", <<F("names", NamesT), F("defs", TOpt(DefsT)), F("vals", TVec(ValsT)), F("skips", TMap(SkipsT)), F("flat", FlatT),
                          F("extra", TOpt(ExtraTT))>>)
ExtOT == TObj("ExtO", <<F("num", TI32), F("txt", TOpt(TStr)), F("nums", TVec(TI32))>>)
ExtAT == TExtA("ExtA", <<F("first", TI32), F("second", TOpt(TStr)), F("third", u8)>>)
Types == [ExtO |-> ExtOT, ExtA |-> ExtAT, Scalars |-> ScalarsT, Boxes |-> BoxesT, Nest |-> NestT, Derived |-> DerivedT, Names |-> NamesT, Defs |-> DefsT, Skips |-> SkipsT,
  Vals |-> ValsT, Flat |-> FlatT, FlatDeep |-> FlatDeepT, Extra |-> ExtraTT, ExtraRec |-> ExtraRecT, ExtraOpt |-> ExtraOptT,
  FlatExtra |-> FlatExtraT, FlatInnerExtra |-> FlatInnerExtraT, Combo |-> ComboT,
  i8 |-> i8, u8 |-> u8, i16 |-> i16, u16 |-> u16, i32 |-> TI32, u32 |-> u32, i64 |-> i64, u64 |-> u64, dbl |-> TDbl, str |-> TStr,
  bool |-> TBool, Color |-> ColorT, es |-> FlagT, oi |-> OI, vi |-> TVec(i16), mo |-> TMap(OI), tup |-> TTup(<<TI32, TOpt(TStr), u8>>),
  arr |-> TArr(2, TOpt(i8))]
\* no attributes, no map values that vanish when null: decoding the encoding gives the value back
Lossless == {"ExtO", "ExtA", "Scalars", "Derived", "Names", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "dbl", "str", "bool", "Color", "es", "oi",
             "vi", "tup", "arr", "Nest"}
=============================================================================
