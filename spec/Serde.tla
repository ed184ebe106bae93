------------------------------- MODULE Serde -------------------------------
(* The meaning of kl's declarative serialization: what a C++ value of a declared type looks like as  *)
(* JSON (Encode), which JSON documents are accepted for a type and what value they denote (Decode),   *)
(* and what applying a document as a patch does (Patch).                                              *)
(*                                                                                                    *)
(* JSON documents and C++ values are tagged tuples:                                                   *)
(*   <<"n">> null/empty optional, <<"b",bool>>, <<"i",limbs>>, <<"d",bits>>, <<"s",text>>,            *)
(*   <<"a",seq>>, <<"m",<< <<key,x>>, ... >> >>; values only: <<"o",x>> engaged optional,             *)
(*   <<"r",<< <<member,x>>, ... >> >> struct.  An integer is sign and three base-2^24 digits.         *)
(* An input document carries, per number, also the bits of the nearest double and the nearest float:  *)
(*   <<"i",l,dbits,fbits>>, <<"d",dbits,fbits>>.                                                      *)
(* A YAML scalar has no type of its own; it is its text together with what that text denotes as an    *)
(* integer (<<>> if none), as a boolean ("t", "f", ""), as a double and as a float ("" if none):      *)
(*   <<"y",text,l,bool,dbits,fbits>>; a mapping key that is not a scalar is written NoText.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(k) == <<"i", IF k < 0 THEN <<1, 0, 0, -k>> ELSE <<0, 0, 0, k>> >>
Str(x) == <<"s", x>>
Null == <<"n">>
MapV(f) == <<"m", f>>

NoText == "?not a scalar"
Text(j) == IF j[1] = "y" THEN Str(j[2]) ELSE j

\* ---------------------------------------------------------------- integers beyond TLC's range
B24 == 16777216
MagLeq(a, b) == \/ a[2] < b[2]
                \/ a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] <= b[4]))
IntLeq(a, b) == IF a[1] = 1 /\ b[1] = 0 THEN TRUE
                ELSE IF a[1] = 0 /\ b[1] = 1 THEN FALSE
                ELSE IF a[1] = 0 THEN MagLeq(a, b) ELSE MagLeq(b, a)
\* 2^bits as a magnitude
Pow2(bits) == IF bits < 24 THEN <<0, 0, 0, 2^bits>>
              ELSE IF bits < 48 THEN <<0, 0, 2^(bits - 24), 0>>
              ELSE <<0, 2^(bits - 48), 0, 0>>
MagLess(a, b) == ~MagLeq(b, a)
Fits(l, bits, sgn) ==
  IF sgn THEN IF l[1] = 1 THEN MagLeq(l, Pow2(bits - 1)) ELSE MagLess(l, Pow2(bits - 1))
         ELSE l[1] = 0 /\ MagLess(l, Pow2(bits))

\* ---------------------------------------------------------------- type descriptions
TInt(bits, sgn) == <<"int", bits, sgn>>
TI32 == TInt(32, TRUE)
TStr == <<"str">>
TBool == <<"bool">>
TDbl == <<"dbl">>
TFlt == <<"flt">>
TEnum(names) == <<"enum", names>>                 \* reflected: by name
TRaw(bits, sgn) == <<"int", bits, sgn>>           \* not reflected: by underlying value
TSet(names) == <<"eset", names>>                  \* enum_set
TOpt(T) == <<"opt", T>>
TVec(T) == <<"vec", T>>
TArr(n, T) == <<"arr", n, T>>
TMap(T) == <<"map", T>>
TTup(Ts) == <<"tup", Ts>>
TRec(name, fields) == <<"rec", name, fields>>
THex == <<"hex">>                                 \* user type with its own serializer: "x" + digit
HexTexts == {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}
TObj(name, fields) == <<"obj", name, fields>>      \* user serializer over the object builder/extractor
TExtA(name, fields) == <<"exta", name, fields>>    \* ... over the array builder/extractor
NoVal == <<"novalidator">>
None == <<"none">>
RECURSIVE Default(_)
Default(T) ==
  CASE T[1] = "int" -> I(0)
    [] T[1] = "str" -> Str("")
    [] T[1] = "bool" -> <<"b", FALSE>>
    [] T[1] \in {"dbl", "flt"} -> <<"d", "0000000000000000">>
    [] T[1] = "enum" -> Str(T[2][1])
    [] T[1] = "eset" -> <<"a", <<>> >>
    [] T[1] = "opt" -> Null
    [] T[1] = "vec" -> <<"a", <<>> >>
    [] T[1] = "arr" -> <<"a", [i \in 1..T[2] |-> Default(T[3])]>>
    [] T[1] = "map" -> MapV(<<>>)
    [] T[1] = "tup" -> <<"a", [i \in 1..Len(T[2]) |-> Default(T[2][i])]>>
    [] T[1] = "hex" -> Str("x0")
    [] T[1] \in {"rec", "obj", "exta"} -> <<"r", [i \in 1..Len(T[3]) |-> <<T[3][i].n, T[3][i].init>>]>>

\* a field: member name n, serialized name jn, aliases, type, attributes, default value, validator
F(n, T) == [n |-> n, jn |-> n, al |-> <<>>, T |-> T, at |-> {}, dv |-> None, val |-> NoVal, init |-> Default(T), ck |-> <<>>]
At(f, a) == [f EXCEPT !.at = @ \cup {a}]
Ren(f, jn) == [f EXCEPT !.jn = jn]
Al(f, al) == [f EXCEPT !.al = al]
Dv(f, v) == [f EXCEPT !.dv = v]
Vd(f, v) == [f EXCEPT !.val = v]
Ini(f, v) == [f EXCEPT !.init = v]
Ck(f, ks) == [f EXCEPT !.ck = ks]                 \* members that key the elements of a resource collection

SeqRange(s) == {s[i] : i \in DOMAIN s}
HasKey(m, k) == \E i \in DOMAIN m : m[i][1] = k
Get(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k][2]

\* every name (and alias) claimed by a struct's own and flattened fields
RECURSIVE Reserved(_)
Reserved(fs) == UNION {IF "extra" \in fs[i].at THEN {}
                       ELSE IF "flatten" \in fs[i].at THEN Reserved(fs[i].T[3])
                       ELSE {fs[i].jn} \cup SeqRange(fs[i].al) : i \in DOMAIN fs}

\* ---------------------------------------------------------------- encoding
IsNull(v) == v = Null
IsEmpty(v) == IF v[1] = "s" THEN v[2] = "" ELSE v[2] = <<>>
Err == <<"err">>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Encode(_, _, _)
RECURSIVE EncFields(_, _, _, _)
EncField(f, v, sk, res) ==
  IF "skipser" \in f.at THEN <<>>
  ELSE IF "emitnull" \notin f.at /\ IsNull(v) /\ ("skipnull" \in f.at \/ sk) THEN <<>>
  ELSE IF "skipempty" \in f.at /\ IsEmpty(v) THEN <<>>
  ELSE IF "extra" \in f.at
       THEN Flat([i \in DOMAIN v[2] |->
                    IF v[2][i][1] \in res THEN << <<v[2][i][1], Err>> >>
                    ELSE IF IsNull(v[2][i][2]) /\ sk THEN <<>>
                    ELSE << <<v[2][i][1], Encode(f.T[2], v[2][i][2], sk)>> >>])
  ELSE IF "flatten" \in f.at THEN EncFields(f.T[3], v[2], sk, res)
  ELSE << <<f.jn, Encode(f.T, v, sk)>> >>
EncFields(fs, mv, sk, res) == Flat([i \in DOMAIN fs |-> EncField(fs[i], mv[i][2], sk, res)])
HasErr(ms) == \E i \in DOMAIN ms : ms[i][2] = Err
Obj(ms) == IF HasErr(ms) THEN Err ELSE <<"m", ms>>
Arr(xs) == IF \E i \in DOMAIN xs : xs[i] = Err THEN Err ELSE <<"a", xs>>
Encode(T, v, sk) ==
  CASE T[1] \in {"int", "str", "bool", "dbl", "flt", "enum", "hex"} -> v
    [] T[1] = "eset" -> v
    [] T[1] = "opt" -> IF IsNull(v) THEN Null ELSE Encode(T[2], v[2], sk)
    [] T[1] = "vec" -> Arr([i \in DOMAIN v[2] |-> Encode(T[2], v[2][i], sk)])
    [] T[1] = "arr" -> Arr([i \in DOMAIN v[2] |-> Encode(T[3], v[2][i], sk)])
    [] T[1] = "tup" -> Arr([i \in DOMAIN v[2] |-> Encode(T[2][i], v[2][i], sk)])
    [] T[1] = "map" -> Obj(Flat([i \in DOMAIN v[2] |->
                               IF IsNull(v[2][i][2]) /\ sk THEN <<>>
                               ELSE << <<v[2][i][1], Encode(T[2], v[2][i][2], sk)>> >>]))
    [] T[1] = "rec" -> Obj(EncFields(T[3], v[2], sk, Reserved(T[3])))
    [] T[1] = "obj" -> Obj([i \in DOMAIN T[3] |-> <<T[3][i].jn, Encode(T[3][i].T, v[2][i][2], sk)>>])
    [] T[1] = "exta" -> Arr([i \in DOMAIN T[3] |-> Encode(T[3][i].T, v[2][i][2], sk)])

\* ---------------------------------------------------------------- decoding
\* result <<TRUE, value>> or <<FALSE, where>>: the way from the offending part outwards, as <<"f", member>>,
\* <<"i", index of an element>>, <<"k", key of an entry>>
Ok(v) == <<TRUE, v>>
No == <<FALSE, <<>> >>
Within(r, step) == IF r[1] THEN r ELSE <<FALSE, Append(r[2], step)>>
In(r, name) == Within(r, <<"f", name>>)
InElem(r, i) == Within(r, <<"i", ToString(i - 1)>>)
InEntry(r, k) == Within(r, <<"k", k>>)
RECURSIVE AllOk(_)
AllOk(rs) == IF rs = <<>> THEN Ok(<<>>)
             ELSE IF ~Head(rs)[1] THEN Head(rs)
             ELSE LET t == AllOk(Tail(rs)) IN IF t[1] THEN Ok(<<Head(rs)[2]>> \o t[2]) ELSE t
Wrap(tag, r) == IF r[1] THEN Ok(<<tag, r[2]>>) ELSE r
Valid(val, v) ==
  CASE val = NoVal -> TRUE
    [] val[1] = "range" -> IntLeq(val[2], v[2]) /\ IntLeq(v[2], val[3])
    [] val[1] = "ge" -> IntLeq(val[2], v[2])
    [] val[1] = "le" -> IntLeq(v[2], val[2])
    [] val[1] = "nonempty" -> ~IsEmpty(v)
    [] val[1] = "set" -> ~IsNull(v)             \* custom: optional must be engaged
    [] val[1] = "both" -> IntLeq(val[2], v[2]) /\ v[2] /= val[3]
\* the field is given under its own name, else under the first alias present
NameOf(f, ms) == IF HasKey(ms, f.jn) THEN f.jn
                 ELSE LET ix == {i \in DOMAIN f.al : HasKey(ms, f.al[i])}
                      IN IF ix = {} THEN "" ELSE f.al[CHOOSE i \in ix : \A k \in ix : i <= k]
InSeq(names, x) == \E i \in DOMAIN names : names[i] = x
\* canonical order of a flag set is the declaration order of its enumerators
SetOf(names, xs) == SelectSeq([i \in 1..Len(names) |-> Str(names[i])], LAMBDA s : \E k \in DOMAIN xs : xs[k] = s)

RECURSIVE Decode(_, _, _)
RECURSIVE DecFields(_, _, _, _, _)
\* field of an object; res: names that are not extra fields
DecField(f, ms, j, old, res) ==
  IF "skipde" \in f.at THEN Ok(old)
  ELSE IF "extra" \in f.at
       THEN LET take == SelectSeq(ms, LAMBDA e : e[1] \notin res)
            IN IF HasKey(take, NoText) THEN No ELSE Wrap("m", AllOk([i \in DOMAIN take |->
                 LET r == InEntry(Decode(f.T[2], take[i][2], Default(f.T[2])), take[i][1]) IN IF r[1] THEN Ok(<<take[i][1], r[2]>>) ELSE r]))
  ELSE IF "flatten" \in f.at
       THEN In(Wrap("r", DecFields(f.T[3], ms, j, old[2], res)), f.n)
  ELSE LET nm == NameOf(f, ms) IN
       IF nm = "" /\ f.dv /= None THEN Ok(f.dv)
       ELSE IF nm = "" /\ "allowmissing" \in f.at THEN Ok(old)
       ELSE LET node == IF nm = "" THEN Null ELSE Get(ms, nm) IN
            IF node = Null /\ f.dv /= None THEN Ok(f.dv)
            ELSE LET r == Decode(f.T, node, old)
                 IN In(IF ~r[1] THEN r ELSE IF Valid(f.val, r[2]) THEN r ELSE No, f.n)
DecFields(fs, ms, j, old, res) ==
  AllOk([i \in DOMAIN fs |-> LET r == DecField(fs[i], ms, j, old[i][2], res)
                             IN IF r[1] THEN Ok(<<fs[i].n, r[2]>>) ELSE r])
\* positional form: one element per deserializable field; absent trailing elements read as null
Position(fs, i) == Cardinality({k \in 1..i : "skipde" \notin fs[k].at})
DecPos(fs, xs, old) ==
  LET n == Position(fs, Len(fs)) IN
  IF Len(xs) > n THEN No
  ELSE IF \E i \in DOMAIN fs : fs[i].at \cap {"extra", "flatten"} /= {} /\ "skipde" \notin fs[i].at THEN No
  ELSE AllOk([i \in DOMAIN fs |->
        IF "skipde" \in fs[i].at THEN Ok(<<fs[i].n, old[i][2]>>)
        ELSE LET p == Position(fs, i)
                 r == Decode(fs[i].T, IF p <= Len(xs) THEN xs[p] ELSE Null, old[i][2])
             IN InElem(IF ~r[1] THEN r ELSE IF Valid(fs[i].val, r[2]) THEN Ok(<<fs[i].n, r[2]>>) ELSE No, p)])
Decode(T, j, old) ==
  CASE T[1] = "int" -> IF j[1] = "i" THEN IF Fits(j[2], T[2], T[3]) THEN Ok(<<"i", j[2]>>) ELSE No
                       ELSE IF j[1] = "y" THEN IF j[3] = <<>> THEN No ELSE IF Fits(j[3], T[2], T[3]) THEN Ok(<<"i", j[3]>>) ELSE No
                       ELSE No
    [] T[1] = "str" -> IF j[1] \in {"s", "y"} THEN Ok(Text(j)) ELSE No
    [] T[1] = "hex" -> IF j[1] \in {"s", "y"} THEN IF j[2] \in HexTexts THEN Ok(Text(j)) ELSE No ELSE No
    [] T[1] = "bool" -> IF j[1] = "b" THEN Ok(j) ELSE IF j[1] = "y" THEN IF j[4] = "" THEN No ELSE Ok(<<"b", j[4] = "t">>) ELSE No
    [] T[1] = "dbl" -> IF j[1] = "d" THEN Ok(<<"d", j[2]>>) ELSE IF j[1] = "i" THEN Ok(<<"d", j[3]>>)
                       ELSE IF j[1] = "y" THEN IF j[5] = "" THEN No ELSE Ok(<<"d", j[5]>>) ELSE No
    [] T[1] = "flt" -> IF j[1] = "d" THEN Ok(<<"d", IF Len(j) = 3 THEN j[3] ELSE j[2]>>) ELSE IF j[1] = "i" THEN Ok(<<"d", j[4]>>)
                       ELSE IF j[1] = "y" THEN IF j[6] = "" THEN No ELSE Ok(<<"d", j[6]>>) ELSE No
    [] T[1] = "enum" -> IF j[1] \in {"s", "y"} THEN IF InSeq(T[2], j[2]) THEN Ok(Text(j)) ELSE No ELSE No
    [] T[1] = "eset" ->
         IF j[1] /= "a" THEN No
         ELSE LET r == AllOk([i \in DOMAIN j[2] |-> Decode(TEnum(T[2]), j[2][i], Null)])
              IN IF r[1] THEN Ok(<<"a", SetOf(T[2], r[2])>>) ELSE r
    [] T[1] = "opt" -> IF j = Null THEN Ok(Null) ELSE Wrap("o", Decode(T[2], j, Default(T[2])))
    [] T[1] = "vec" -> IF j[1] /= "a" THEN No
                       ELSE Wrap("a", AllOk([i \in DOMAIN j[2] |-> InElem(Decode(T[2], j[2][i], Default(T[2])), i)]))
    [] T[1] = "arr" -> IF j[1] /= "a" THEN No
                       ELSE IF Len(j[2]) > T[2] THEN No
                       ELSE Wrap("a", AllOk([i \in 1..T[2] |->
                                 InElem(Decode(T[3], IF i <= Len(j[2]) THEN j[2][i] ELSE Null, old[2][i]), i)]))
    [] T[1] = "tup" -> IF j[1] /= "a" THEN No
                       ELSE IF Len(j[2]) > Len(T[2]) THEN No
                       ELSE Wrap("a", AllOk([i \in 1..Len(T[2]) |->
                                 Decode(T[2][i], IF i <= Len(j[2]) THEN j[2][i] ELSE Null, old[2][i])]))
    [] T[1] = "map" -> IF j[1] /= "m" THEN No
                       ELSE IF HasKey(j[2], NoText) THEN No
                       ELSE Wrap("m", AllOk([i \in DOMAIN j[2] |->
                                 LET r == InEntry(Decode(T[2], j[2][i][2], Default(T[2])), j[2][i][1])
                                 IN IF r[1] THEN Ok(<<j[2][i][1], r[2]>>) ELSE r]))
    [] T[1] = "rec" -> IF j[1] = "m" THEN Wrap("r", DecFields(T[3], j[2], j, old[2], Reserved(T[3])))
                       ELSE IF j[1] = "a" THEN Wrap("r", DecPos(T[3], j[2], old[2]))
                       ELSE No
    [] T[1] = "obj" -> IF j[1] = "m" THEN Wrap("r", DecFields(T[3], j[2], j, old[2], {})) ELSE No
    [] T[1] = "exta" -> IF j[1] = "a"
                        THEN LET r == DecPos(T[3], IF Len(j[2]) > Len(T[3]) THEN SubSeq(j[2], 1, Len(T[3])) ELSE j[2], old[2])
                             IN IF r[1] THEN Wrap("r", r) ELSE No      \* read in an order of the user's choice
                        ELSE No

\* ---------------------------------------------------------------- patching
RECURSIVE Patch(_, _, _)
RECURSIVE PatchFields(_, _, _, _)
RECURSIVE PatchEntries(_, _, _)
\* merges the given entries one by one into a map value
PatchEntries(T, m, es) ==
  IF es = <<>> THEN Ok(m)
  ELSE IF HasKey(es, NoText) THEN No
  ELSE LET k == Head(es)[1]
           r == InEntry(Patch(T, IF HasKey(m, k) THEN Get(m, k) ELSE Default(T), Head(es)[2]), k)
       IN IF ~r[1] THEN r
          ELSE PatchEntries(T, IF HasKey(m, k) THEN [i \in DOMAIN m |-> IF m[i][1] = k THEN <<k, r[2]>> ELSE m[i]]
                               ELSE Append(m, <<k, r[2]>>), Tail(es))
PatchField(f, ms, old, res) ==
  IF "skipde" \in f.at THEN Ok(old)
  ELSE IF "extra" \in f.at THEN Wrap("m", PatchEntries(f.T[2], old[2], SelectSeq(ms, LAMBDA e : e[1] \notin res)))
  ELSE IF "flatten" \in f.at THEN In(Wrap("r", PatchFields(f.T[3], ms, old[2], res)), f.n)
  ELSE LET nm == NameOf(f, ms) IN
       IF nm = "" THEN Ok(old)
       ELSE LET node == Get(ms, nm) IN
            IF node = Null /\ f.dv /= None THEN Ok(f.dv)
            ELSE LET r == Patch(f.T, old, node)
                 IN In(IF ~r[1] THEN r ELSE IF Valid(f.val, r[2]) THEN r ELSE No, f.n)
PatchFields(fs, ms, old, res) ==
  AllOk([i \in DOMAIN fs |-> LET r == PatchField(fs[i], ms, old[i][2], res)
                             IN IF r[1] THEN Ok(<<fs[i].n, r[2]>>) ELSE r])
Patch(T, v, j) ==
  CASE T[1] = "rec" /\ j[1] = "m" -> Wrap("r", PatchFields(T[3], j[2], v[2], Reserved(T[3])))
    [] T[1] = "opt" -> IF j = Null THEN Ok(Null)
                       ELSE Wrap("o", Patch(T[2], IF IsNull(v) THEN Default(T[2]) ELSE v[2], j))
    [] OTHER -> Decode(T, j, v)

\* ---------------------------------------------------------------- comparison up to the order of map entries
RECURSIVE SameV(_, _, _)
SameEntries(T, a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : HasKey(b, a[i][1]) /\ SameV(T, a[i][2], Get(b, a[i][1]))
SameV(T, a, b) ==
  /\ a[1] = b[1] /\ Len(a) = Len(b)
  /\ CASE T[1] = "opt" -> IF IsNull(a) THEN TRUE ELSE SameV(T[2], a[2], b[2])
       [] T[1] = "vec" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameV(T[2], a[2][i], b[2][i])
       [] T[1] = "arr" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameV(T[3], a[2][i], b[2][i])
       [] T[1] = "tup" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameV(T[2][i], a[2][i], b[2][i])
       [] T[1] = "map" -> SameEntries(T[2], a[2], b[2])
       [] T[1] \in {"rec", "obj", "exta"} -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : a[2][i][1] = b[2][i][1] /\ SameV(T[3][i].T, a[2][i][2], b[2][i][2])
       [] OTHER -> a = b
\* JSON documents written for type T: members of a struct in declaration order, entries of a map in any order
RECURSIVE Members(_)
Members(fs) == Flat([i \in DOMAIN fs |-> IF "extra" \in fs[i].at THEN <<>>
                                         ELSE IF "flatten" \in fs[i].at THEN Members(fs[i].T[3])
                                         ELSE << <<fs[i].jn, fs[i].T>> >>])
RECURSIVE ExtraT(_)
ExtraT(fs) == UNION {IF "extra" \in fs[i].at THEN {fs[i].T[2]}
                     ELSE IF "flatten" \in fs[i].at THEN ExtraT(fs[i].T[3]) ELSE {} : i \in DOMAIN fs}
Keys(m) == [i \in DOMAIN m |-> m[i][1]]
RECURSIVE SameDoc(_, _, _)
\* a YAML scalar (of a document that was read back) stands for scalar a of type T
SameScalar(T, a, y) == CASE a[1] = "i" -> y[3] = a[2]
                         [] a[1] = "s" -> y[2] = a[2]
                         [] a[1] = "b" -> y[4] = (IF a[2] THEN "t" ELSE "f")
                         [] a[1] = "d" -> (IF T[1] = "flt" THEN y[6] ELSE y[5]) = a[2]
                         [] OTHER -> FALSE
SameDoc(T, a, b) ==
  /\ a[1] = b[1] \/ b[1] = "y"
  /\ CASE a[1] \in {"n", "err"} -> a = b
       [] T[1] = "opt" -> SameDoc(T[2], a, b)
       [] b[1] = "y" -> SameScalar(T, a, b)
       [] T[1] = "eset" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameDoc(TStr, a[2][i], b[2][i])
       [] T[1] = "vec" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameDoc(T[2], a[2][i], b[2][i])
       [] T[1] = "arr" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameDoc(T[3], a[2][i], b[2][i])
       [] T[1] = "tup" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameDoc(T[2][i], a[2][i], b[2][i])
       [] T[1] = "map" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] :
                             HasKey(b[2], a[2][i][1]) /\ SameDoc(T[2], a[2][i][2], Get(b[2], a[2][i][1]))
       [] T[1] = "exta" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameDoc(T[3][i].T, a[2][i], b[2][i])
       [] T[1] \in {"rec", "obj"} ->
            LET ms == Members(T[3])
                own(s) == SelectSeq(Keys(s), LAMBDA k : HasKey(ms, k))
            IN /\ Len(a[2]) = Len(b[2])
               /\ own(a[2]) = own(b[2])
               /\ \A i \in DOMAIN a[2] :
                    /\ HasKey(b[2], a[2][i][1])
                    /\ SameDoc(IF HasKey(ms, a[2][i][1]) THEN Get(ms, a[2][i][1])
                               ELSE CHOOSE t \in ExtraT(T[3]) : TRUE, a[2][i][2], Get(b[2], a[2][i][1]))
       [] OTHER -> a[2] = b[2]
=============================================================================
