------------------------------- MODULE MC_Types -------------------------------
(***************************************************************************)
(* Explores, for every type of IOEnv.TYPES, the C++ values reachable from the *)
(* default one in a few edits, and for each of them its JSON value and the     *)
(* JSON values that differ from it in one place.                              *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

CONSTANTS MaxEdits,      \* number of edits
          MaxChanges        \* number of changes to the JSON value

Ty == ndJsonDeserialize(IOEnv.TYPES)

B(s) == [i \in 1..Len(s) |-> s[i]]
Ints(k) == LET r == IntRange(k) IN
    { Num(<<48>>), Num(<<49>>), Num(r[2]) } \cup (IF r[1] = <<48>> THEN {} ELSE { Num(<<45>> \o r[1]), Num(<<45, 49>>) })
Strs  == { Str(<<>>), Str(<<97>>), Str(<<34, 92, 10, 0, 255>>), Str([i \in 1..40 |-> 64 + i]) }
Jsons == { Null, Bool(TRUE), Num(<<49>>), Str(<<97>>), Arr(<<Null, Num(<<48>>)>>), Obj(<<<<<<107>>, Str(<<>>)>>>>) }
Flts  == { <<"f", FALSE, <<48>>, 0>>, <<"f", TRUE, <<49, 53>>, -1>>, <<"f", FALSE, <<49>>, -1>>, <<"f", FALSE, <<51>>, 30>>, <<"f", TRUE, <<49, 50, 51, 52, 53, 54>>, -20>> }
Keys  == { <<>>, <<97>>, <<107, 101, 121, 32, 200>> }

\* One edit of a C++ value
RECURSIVE Edits(_, _)
EditAt(T, xs, i) == { [xs EXCEPT ![i] = y] : y \in Edits(T, xs[i]) }
Edits(T, x) ==
    CASE T[1] = "bool" -> { Bool(~x[2]) }
      [] T[1] = "int"  -> Ints(T[2]) \ {x}
      [] T[1] = "flt"  -> Flts \ {x}
      [] T[1] = "str"  -> Strs \ {x}
      [] T[1] = "path" -> { Str(<<97, 47, 98>>), Str(<<47>>), Str(<<>>),
                                \* a//../b/. and ./a/
                                Str(<<97, 47, 47, 46, 46, 47, 98, 47, 46>>), Str(<<46, 47, 97, 47>>), Str([i \in 1..40 |-> 64 + i]) } \ {x}
      [] T[1] = "mono" -> {}
      [] T[1] = "json" -> { j \in Jsons : j # x }
      [] T[1] = "jarr" -> { Arr(<<>>), Arr(<<Null>>), Arr(<<Str(<<97>>), Arr(<<>>)>>) } \ {x}
      [] T[1] = "jobj" -> { Obj(<<>>), Obj(<<<<<<97>>, Null>>>>), Obj(<<<<<<>>, Arr(<<>>)>>, <<<<97>>, Num(<<49>>)>>>>) } \ {x}
      [] T[1] = "nul"  -> IF x[1] = "none" THEN { <<"some", Default(T[2])>> } ELSE { <<"none">> } \cup { <<"some", y>> : y \in Edits(T[2], x[2]) }
      [] T[1] = "seq"  -> { <<"l", Append(x[2], Default(T[2]))>> } \cup (IF x[2] = <<>> THEN {} ELSE { <<"l", Tail(x[2])>> })
                          \cup UNION { { <<"l", ys>> : ys \in EditAt(T[2], x[2], i) } : i \in 1..Len(x[2]) }
      [] T[1] \in {"set", "uset", "mset"} ->
                          { <<"l", XInsert(x[2], y, T[1] = "mset")>> : y \in { Default(T[2]) } \cup Edits(T[2], Default(T[2])) }
                          \cup { <<"l", RemoveAt(x[2], i)>> : i \in 1..Len(x[2]) }
                          \cup (IF T[1] = "mset" /\ x[2] # <<>> THEN { <<"l", XInsert(x[2], x[2][1], TRUE)>> } ELSE {})
      [] T[1] = "fix"  -> UNION { { <<"l", ys>> : ys \in EditAt(T[3], x[2], i) } : i \in 1..T[2] }
      [] T[1] = "tup"  -> UNION { { <<"l", ys>> : ys \in EditAt(T[2][i], x[2], i) } : i \in 1..Len(T[2]) }
      [] T[1] = "map"  -> { <<"m", PutMember(x[2], k, Default(T[2]))>> : k \in Keys } \cup { <<"m", RemoveAt(x[2], i)>> : i \in 1..Len(x[2]) }
                          \cup UNION { { <<"m", [x[2] EXCEPT ![i] = <<x[2][i][1], y>>]>> : y \in Edits(T[2], x[2][i][2]) } : i \in 1..Len(x[2]) }
      [] T[1] = "var"  -> { <<"alt", i - 1, Default(T[2][i])>> : i \in 1..Len(T[2]) } \cup { <<"alt", x[2], y>> : y \in Edits(T[2][x[2] + 1], x[3]) }
      [] T[1] = "enum" -> { <<"e", T[3][i][1]>> : i \in 1..Len(T[3]) } \cup { <<"e", <<49, 50, 55>>>>, <<"e", <<48>>>> }
      [] T[1] = "rec"  -> UNION { { <<"l", ys>> : ys \in EditAt(T[2][i][2], x[2], i) } : i \in 1..Len(T[2]) }
      [] T[1] = "ext"  -> Edits(T[2], x)

\* One change to a JSON value
Big(t) == Num(D(t))
Leaves == { Null, Bool(TRUE), Bool(FALSE), Num(<<48>>), Num(<<45, 49>>), Num(<<49, 46, 53>>), Num(<<49, 101, 50>>), Num(<<49, 46, 48>>),
            Big(<<2,1,4,7,4,8,3,6,4,8>>), Big(<<4,2,9,4,9,6,7,2,9,6>>), Big(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), Big(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>),
            Num(<<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57>>), Num(<<49, 101, 52, 48, 48>>), Num(<<49, 101, 45, 53, 48>>),
            Str(<<>>), Str(<<49>>), Str(<<65>>), EmptyArr, EmptyObj, Arr(<<Null>>), Arr(<<Num(<<49>>), Num(<<50>>)>>), Obj(<<<<<<97>>, Num(<<49>>)>>>>) }
RECURSIVE Changed(_)
Changed(v) ==
    (Leaves \ {v}) \cup
    (CASE v[1] = "a" -> LET s == v[2] IN
              { Arr(RemoveAt(s, i)) : i \in 1..Len(s) } \cup { Arr(InsertAt(s, i, s[i])) : i \in 1..Len(s) } \cup { Arr(Append(s, Null)), Arr(<<Null>> \o s) }
              \cup (IF s = <<>> THEN { Arr(<<e>>) : e \in { Str(<<>>), Num(<<49>>), Bool(TRUE), EmptyArr, EmptyObj } } ELSE {})
              \cup { Arr([s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]) : i \in 1..(Len(s) - 1) }
              \cup UNION { { Arr([s EXCEPT ![i] = y]) : y \in Changed(s[i]) } : i \in 1..Len(s) }
       [] v[1] = "o" -> LET s == v[2] IN
              { Obj(RemoveAt(s, i)) : i \in 1..Len(s) } \cup { Obj(PutMember(s, k, Null)) : k \in {<<122, 122>>, <<>>} }
              \cup { Obj(PutMember(RemoveAt(s, i), s[i][1] \o <<95>>, s[i][2])) : i \in 1..Len(s) }
              \cup UNION { { Obj([s EXCEPT ![i] = <<s[i][1], y>>]) : y \in Changed(s[i][2]) } : i \in 1..Len(s) }
       [] v[1] = "s" -> { Str(v[2] \o <<97>>), Str([i \in 1..Len(v[2]) |-> Lower(v[2][i])]), Str([i \in 1..Len(v[2]) |-> IF v[2][i] \in 97..122 THEN v[2][i] - 32 ELSE v[2][i]]) }
                        \cup (IF v[2] = <<>> THEN {} ELSE { Str(Tail(v[2])) })
       [] OTHER -> {})

VARIABLES t, ph, d, n
vars == <<t, ph, d, n>>
Init == t \in 1..Len(Ty) /\ ph = "x" /\ d = Default(Ty[t]) /\ n = 0
Edit == ph = "x" /\ n < MaxEdits /\ d' \in Edits(Ty[t], d) /\ n' = n + 1 /\ UNCHANGED <<t, ph>>
Write == ph = "x" /\ Writable(Ty[t], d) = TRUE /\ ph' = "v" /\ d' = Enc(Ty[t], d) /\ n' = 0 /\ UNCHANGED t
Change == ph = "v" /\ n < MaxChanges /\ d' \in Changed(d) /\ n' = n + 1 /\ UNCHANGED <<t, ph>>
Next == Edit \/ Write \/ Change
Spec == Init /\ [][Next]_vars
\* how a state was reached does not matter
View == <<t, ph, d>>

T0 == Ty[t]
\* What is written can be read, and where JSON tells the values of the type apart, gives the same value.
RoundTrip == (ph = "x" /\ Writable(T0, d)) =>
                LET v == Enc(T0, d) IN /\ WellFormed(v) /\ WrittenAs(T0, d, v)
                                       /\ Is(T0, v)
                                       /\ Clear(T0) => XEq(Dec(T0, v), d)
\* What is read can be written, and reading that gives the same value again.
Stable == (ph = "v" /\ Is(T0, d)) =>
                LET x == Dec(T0, d) IN (Predicted(x) /\ Writable(T0, x)) =>
                    LET w == Enc(T0, x) IN Is(T0, w) /\ (Clear(T0) => Dec(T0, w) = x)
Emitted == IF ph = "x" THEN PrintT(ToJson([op |-> "tojson", t |-> t, x |-> d])) ELSE PrintT(ToJson([op |-> "conv", t |-> t, v |-> d]))
===============================================================================
