-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Conversions between C++ types and JSON.                                   *)
(*                                                                         *)
(* A type is a tagged tuple:                                                *)
(*   <<"bool">> <<"int", k>> <<"flt", k>> <<"str">> <<"path">> <<"mono">>       *)
(*   <<"json">> <<"jarr">> <<"jobj">>        the JSON types themselves           *)
(*   <<"nul", T>>                            optional and smart pointers         *)
(*   <<"seq", T>> <<"set", T>> <<"mset", T>> <<"uset", T>>   collections          *)
(*   <<"fix", n, T>> <<"tup", <<T..>>>>      fixed arrays, tuples and pairs       *)
(*   <<"map", T>>                            maps with string keys               *)
(*   <<"var", <<T..>>>>                      variants                           *)
(*   <<"enum", k, <<<<number, name>>..>>>>   enumerators in the reflected range   *)
(*   <<"rec", <<<<key, T, optional, initial>>..>>>>   reflected structs           *)
(*   <<"ext", T>>                            user-defined conversion to that of T *)
(*                                                                         *)
(* A C++ value is: for scalars and JSON types, the JSON value itself; for      *)
(* floating point a decimal (JsonFloat); <<"none">>, <<"some", x>>;            *)
(* <<"l", xs>> for everything that is a list (collections in iteration order,   *)
(* unordered ones sorted; fixed arrays, tuples, the fields of structs);        *)
(* <<"m", <<<<key, x>>..>>>> sorted by key; <<"alt", i, x>> (from 0);             *)
(* <<"e", number>> for enums.                                               *)
(***************************************************************************)
EXTENDS JsonFloat, TLC

\* TRUE in builds with MEOJSON_ENUM_AS_NUMBER
CONSTANT EnumAsNumber

IntRange(k) ==
    CASE k = "i8" -> Int8Range [] k = "i16" -> Int16Range [] k = "i32" -> Int32Range [] k = "i64" -> Int64Range
      [] k = "u8" -> UInt8Range [] k = "u16" -> UInt16Range [] k = "u32" -> UInt32Range [] k = "u64" -> UInt64Range

\* Numeric order of integer texts
IntLt(a, b) ==
    CASE Neg(a) /\ ~Neg(b) -> TRUE
      [] ~Neg(a) /\ Neg(b) -> FALSE
      [] Neg(a)  -> Mag(a) # Mag(b) /\ MagLe(Mag(b), Mag(a))
      [] OTHER   -> Mag(a) # Mag(b) /\ MagLe(Mag(a), Mag(b))

\* ---- the order of C++ values in sets
RECURSIVE XLt(_, _), ListLt(_, _, _)
XLt(x, y) ==
    CASE x[1] = "b" -> ~x[2] /\ y[2]
      [] x[1] \in {"n", "e"} -> IntLt(x[2], y[2])
      [] x[1] = "s" -> BytesLt(x[2], y[2])
      [] x[1] = "none" -> y[1] = "some"
      [] x[1] = "some" -> y[1] = "some" /\ XLt(x[2], y[2])
      [] x[1] = "l" -> ListLt(x[2], y[2], 1)
ListLt(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF XLt(a[i], b[i]) THEN TRUE
    ELSE IF XLt(b[i], a[i]) THEN FALSE
    ELSE ListLt(a, b, i + 1)
\* Where y belongs, after its equals.
XPos(xs, y) == LET p == SelectInSeq(xs, LAMBDA x : XLt(y, x)) IN IF p = 0 THEN Len(xs) + 1 ELSE p
XInsert(xs, y, multi) ==
    IF ~multi /\ \E i \in 1..Len(xs) : ~XLt(xs[i], y) /\ ~XLt(y, xs[i]) THEN xs
    ELSE InsertAt(xs, XPos(xs, y), y)
XSorted(xs, multi) == FoldLeft(LAMBDA acc, x : XInsert(acc, x, multi), <<>>, xs)

\* ---- enums
EnumName(T, n) == LET p == SelectInSeq(T[3], LAMBDA e : e[1] = n) IN IF p = 0 THEN <<>> ELSE T[3][p][2]
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
SameName(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lower(a[i]) = Lower(b[i])
EnumPos(T, s) == SelectInSeq(T[3], LAMBDA e : SameName(e[2], s))

\* ---- the value of a default-initialised object
RECURSIVE Default(_)
Default(T) ==
    CASE T[1] = "bool" -> Bool(FALSE)
      [] T[1] = "int" -> Num(<<48>>)
      [] T[1] = "flt" -> <<"f", FALSE, <<48>>, 0>>
      [] T[1] \in {"str", "path"} -> Str(<<>>)
      [] T[1] \in {"mono", "json"} -> Null
      [] T[1] = "jarr" -> EmptyArr
      [] T[1] = "jobj" -> EmptyObj
      [] T[1] = "nul" -> <<"none">>
      [] T[1] \in {"seq", "set", "mset", "uset"} -> <<"l", <<>>>>
      [] T[1] = "fix" -> <<"l", [i \in 1..T[2] |-> Default(T[3])]>>
      [] T[1] = "tup" -> <<"l", [i \in 1..Len(T[2]) |-> Default(T[2][i])]>>
      [] T[1] = "map" -> <<"m", <<>>>>
      [] T[1] = "var" -> <<"alt", 0, Default(T[2][1])>>
      [] T[1] = "enum" -> <<"e", <<48>>>>
      [] T[1] = "rec" -> <<"l", [i \in 1..Len(T[2]) |-> T[2][i][4]]>>
      [] T[1] = "ext" -> Default(T[2])

\* ---- C++ to JSON.  Only enums can be unwritable.
RECURSIVE Writable(_, _)
Writable(T, x) ==
    CASE T[1] = "enum" -> EnumAsNumber \/ EnumName(T, x[2]) # <<>>
      [] T[1] = "nul" -> x[1] = "none" \/ Writable(T[2], x[2])
      [] T[1] \in {"seq", "set", "mset", "uset"} -> \A i \in 1..Len(x[2]) : Writable(T[2], x[2][i])
      [] T[1] = "fix" -> \A i \in 1..T[2] : Writable(T[3], x[2][i])
      [] T[1] = "tup" -> \A i \in 1..Len(T[2]) : Writable(T[2][i], x[2][i])
      [] T[1] = "map" -> \A i \in 1..Len(x[2]) : Writable(T[2], x[2][i][2])
      [] T[1] = "var" -> Writable(T[2][x[2] + 1], x[3])
      [] T[1] = "rec" -> \A i \in 1..Len(T[2]) : Writable(T[2][i][2], x[2][i])
      [] T[1] = "ext" -> Writable(T[2], x)
      [] OTHER -> TRUE

\* The JSON value (numbers of floating-point types: one of the possible tokens; unordered sets: one of the possible orders).
RECURSIVE Enc(_, _)
Enc(T, x) ==
    CASE T[1] \in {"bool", "int", "str", "path", "mono", "json", "jarr", "jobj"} -> x
      [] T[1] = "flt" -> Num(DecText(x))
      [] T[1] = "enum" -> IF EnumAsNumber THEN Num(x[2]) ELSE Str(EnumName(T, x[2]))
      [] T[1] = "nul" -> IF x[1] = "none" THEN Null ELSE Enc(T[2], x[2])
      [] T[1] \in {"seq", "set", "mset", "uset"} -> Arr([i \in 1..Len(x[2]) |-> Enc(T[2], x[2][i])])
      [] T[1] = "fix" -> Arr([i \in 1..T[2] |-> Enc(T[3], x[2][i])])
      [] T[1] = "tup" -> Arr([i \in 1..Len(T[2]) |-> Enc(T[2][i], x[2][i])])
      [] T[1] = "map" -> Obj([i \in 1..Len(x[2]) |-> <<x[2][i][1], Enc(T[2], x[2][i][2])>>])
      [] T[1] = "var" -> Enc(T[2][x[2] + 1], x[3])
      [] T[1] = "rec" -> Obj(FoldLeft(LAMBDA acc, i : PutMember(acc, T[2][i][1], Enc(T[2][i][2], x[2][i])), <<>>, [i \in 1..Len(T[2]) |-> i]))
      [] T[1] = "ext" -> Enc(T[2], x)

\* Whether JSON value v is how x is written.
RECURSIVE WrittenAs(_, _, _)
WrittenAs(T, x, v) ==
    CASE T[1] \in {"bool", "int", "str", "path", "mono", "json", "jarr", "jobj"} -> v = x
      [] T[1] = "flt" -> IsNum(v) /\ FWritten(T[2], x, v[2])
      [] T[1] = "enum" -> v = Enc(T, x)
      [] T[1] = "nul" -> IF x[1] = "none" THEN IsNull(v) ELSE WrittenAs(T[2], x[2], v)
      [] T[1] \in {"seq", "set", "mset"} -> IsArr(v) /\ Len(v[2]) = Len(x[2]) /\ \A i \in 1..Len(x[2]) : WrittenAs(T[2], x[2][i], v[2][i])
      [] T[1] = "uset" -> /\ IsArr(v) /\ Len(v[2]) = Len(x[2])
                          /\ \A i \in 1..Len(x[2]) : \E j \in 1..Len(x[2]) : WrittenAs(T[2], x[2][i], v[2][j])
                          /\ \A j \in 1..Len(x[2]) : \E i \in 1..Len(x[2]) : WrittenAs(T[2], x[2][i], v[2][j])
      [] T[1] = "fix" -> IsArr(v) /\ Len(v[2]) = T[2] /\ \A i \in 1..T[2] : WrittenAs(T[3], x[2][i], v[2][i])
      [] T[1] = "tup" -> IsArr(v) /\ Len(v[2]) = Len(T[2]) /\ \A i \in 1..Len(T[2]) : WrittenAs(T[2][i], x[2][i], v[2][i])
      [] T[1] = "map" -> IsObj(v) /\ Len(v[2]) = Len(x[2]) /\ \A i \in 1..Len(x[2]) : v[2][i][1] = x[2][i][1] /\ WrittenAs(T[2], x[2][i][2], v[2][i][2])
      [] T[1] = "var" -> WrittenAs(T[2][x[2] + 1], x[3], v)
      [] T[1] = "rec" -> /\ IsObj(v) /\ Len(v[2]) = Len(T[2])
                         /\ \A i \in 1..Len(T[2]) : LET p == KeyPos(v[2], T[2][i][1]) IN p # 0 /\ WrittenAs(T[2][i][2], x[2][i], v[2][p][2])
      [] T[1] = "ext" -> WrittenAs(T[2], x, v)

\* ---- JSON to C++
RECURSIVE Is(_, _), RecBad(_, _, _)
Is(T, v) ==
    CASE T[1] = "json" -> TRUE
      [] T[1] = "bool" -> IsBool(v)
      [] T[1] = "int"  -> IsNum(v) /\ Fits(v[2], IntRange(T[2]))
      [] T[1] = "flt"  -> IsNum(v) /\ FReadable(T[2], v[2])
      [] T[1] \in {"str", "path"} -> IsStr(v)
      [] T[1] = "mono" -> IsNull(v)
      [] T[1] = "jarr" -> IsArr(v)
      [] T[1] = "jobj" -> IsObj(v)
      [] T[1] = "nul"  -> IsNull(v) \/ Is(T[2], v)
      [] T[1] \in {"seq", "set", "mset", "uset"} -> IsArr(v) /\ \A i \in 1..Len(v[2]) : Is(T[2], v[2][i])
      [] T[1] = "fix"  -> IsArr(v) /\ Len(v[2]) = T[2] /\ \A i \in 1..T[2] : Is(T[3], v[2][i])
      [] T[1] = "tup"  -> IsArr(v) /\ Len(v[2]) = Len(T[2]) /\ \A i \in 1..Len(T[2]) : Is(T[2][i], v[2][i])
      [] T[1] = "map"  -> IsObj(v) /\ \A i \in 1..Len(v[2]) : Is(T[2], v[2][i][2])
      [] T[1] = "var"  -> \E i \in 1..Len(T[2]) : Is(T[2][i], v)
      [] T[1] = "enum" -> IF IsStr(v) THEN EnumPos(T, v[2]) # 0 ELSE IsNum(v) /\ Fits(v[2], IntRange(T[2]))
      [] T[1] = "rec"  -> RecBad(T, v, 1) = 0
      [] T[1] = "ext"  -> Is(T[2], v)
\* The first field from the i-th on that v does not satisfy, or 0.
RecBad(T, v, i) ==
    IF i > Len(T[2]) THEN 0
    ELSE LET p == IF IsObj(v) THEN KeyPos(v[2], T[2][i][1]) ELSE 0 IN
         IF p = 0 THEN (IF T[2][i][3] THEN RecBad(T, v, i + 1) ELSE i)
         ELSE IF Is(T[2][i][2], v[2][p][2]) THEN RecBad(T, v, i + 1) ELSE i

\* What v converts to (when Is(T, v)).
RECURSIVE Dec(_, _)
Dec(T, v) ==
    CASE T[1] \in {"json", "bool", "str", "path", "mono", "jarr", "jobj"} -> v
      [] T[1] = "int" -> Num(IntText(v[2]))
      [] T[1] = "flt" -> FRead(T[2], v[2])
      [] T[1] = "nul" -> IF IsNull(v) THEN <<"none">> ELSE <<"some", Dec(T[2], v)>>
      [] T[1] = "seq" -> <<"l", [i \in 1..Len(v[2]) |-> Dec(T[2], v[2][i])]>>
      [] T[1] \in {"set", "uset"} -> <<"l", XSorted([i \in 1..Len(v[2]) |-> Dec(T[2], v[2][i])], FALSE)>>
      [] T[1] = "mset" -> <<"l", XSorted([i \in 1..Len(v[2]) |-> Dec(T[2], v[2][i])], TRUE)>>
      [] T[1] = "fix" -> <<"l", [i \in 1..T[2] |-> Dec(T[3], v[2][i])]>>
      [] T[1] = "tup" -> <<"l", [i \in 1..Len(T[2]) |-> Dec(T[2][i], v[2][i])]>>
      [] T[1] = "map" -> <<"m", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Dec(T[2], v[2][i][2])>>]>>
      [] T[1] = "var" -> LET i == SelectInSeq(T[2], LAMBDA U : Is(U, v)) IN <<"alt", i - 1, Dec(T[2][i], v)>>
      [] T[1] = "enum" -> IF IsStr(v) THEN <<"e", T[3][EnumPos(T, v[2])][1]>> ELSE <<"e", IntText(v[2])>>
      [] T[1] = "rec" -> <<"l", [i \in 1..Len(T[2]) |->
                              LET p == IF IsObj(v) THEN KeyPos(v[2], T[2][i][1]) ELSE 0 IN
                              IF p = 0 THEN T[2][i][4] ELSE Dec(T[2][i][2], v[2][p][2])]>>
      [] T[1] = "ext" -> Dec(T[2], v)

\* Equality of C++ values, where <<"?">> in the expectation stands for a floating-point value that is not predicted.
RECURSIVE XEq(_, _)
XEq(e, g) ==
    CASE e[1] = "?" -> g[1] = "f"
      [] e[1] # g[1] -> FALSE
      [] e[1] = "some" -> XEq(e[2], g[2])
      [] e[1] = "l" -> Len(e[2]) = Len(g[2]) /\ \A i \in 1..Len(e[2]) : XEq(e[2][i], g[2][i])
      [] e[1] = "m" -> Len(e[2]) = Len(g[2]) /\ \A i \in 1..Len(e[2]) : e[2][i][1] = g[2][i][1] /\ XEq(e[2][i][2], g[2][i][2])
      [] e[1] = "alt" -> e[2] = g[2] /\ XEq(e[3], g[3])
      [] OTHER -> e = g
RECURSIVE Predicted(_)
Predicted(e) ==
    CASE e[1] = "?" -> FALSE
      [] e[1] = "some" -> Predicted(e[2])
      [] e[1] = "l" -> \A i \in 1..Len(e[2]) : Predicted(e[2][i])
      [] e[1] = "m" -> \A i \in 1..Len(e[2]) : Predicted(e[2][i][2])
      [] e[1] = "alt" -> Predicted(e[3])
      [] OTHER -> TRUE

\* ---- reflected structs: check_json and from_json into a struct that holds x
RecCheck(T, v) == LET b == RecBad(T, v, 1) IN IF b = 0 THEN <<"b", TRUE>> ELSE <<"no", T[2][b][1]>>
\* Whether a struct that held x may hold y afterwards: on success every field that was found is assigned and the others keep their
\* value; on failure nothing changes from the offending field on.
RecLoaded(T, v, x, y) ==
    LET b == RecBad(T, v, 1) IN
    /\ y[1] = "l" /\ Len(y[2]) = Len(T[2])
    /\ \A i \in 1..Len(T[2]) :
         LET p == IF IsObj(v) THEN KeyPos(v[2], T[2][i][1]) ELSE 0 IN
         IF p = 0 \/ (b # 0 /\ i >= b) THEN y[2][i] = x[2][i]
         ELSE XEq(Dec(T[2][i][2], v[2][p][2]), y[2][i]) \/ (b # 0 /\ y[2][i] = x[2][i])

\* ---- types whose values are all told apart by their JSON: no variants, and no null that could mean two things
RECURSIVE MayBeNull(_), Clear(_)
MayBeNull(T) ==
    CASE T[1] \in {"mono", "json", "nul"} -> TRUE
      [] T[1] = "var" -> \E i \in 1..Len(T[2]) : MayBeNull(T[2][i])
      [] T[1] = "ext" -> MayBeNull(T[2])
      [] OTHER -> FALSE
Clear(T) ==
    CASE T[1] = "var" -> FALSE
      [] T[1] = "nul" -> Clear(T[2]) /\ ~MayBeNull(T[2])
      [] T[1] \in {"seq", "set", "mset", "uset", "map", "ext"} -> Clear(T[2])
      [] T[1] = "fix" -> Clear(T[3])
      [] T[1] = "tup" -> \A i \in 1..Len(T[2]) : Clear(T[2][i])
      [] T[1] = "rec" -> \A i \in 1..Len(T[2]) : Clear(T[2][i][2])
      [] OTHER -> TRUE
===============================================================================
