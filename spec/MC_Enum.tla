------------------------------- MODULE MC_Enum -------------------------------
(***************************************************************************)
(* Explores what enums are read from and written as.  For every enum type of   *)
(* IOEnv.TYPES: all numbers around the reflected range and the enumerators, and *)
(* all strings that differ from an enumerator's name in a few edits.            *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

CONSTANT MaxEdits

Ty == ndJsonDeserialize(IOEnv.TYPES)

IntOf(i) == IF i < 0 THEN <<45>> \o NatText(-i) ELSE NatText(i)
SmallVal(t) == IF Neg(t) THEN -DigitsVal(Mag(t), 0) ELSE DigitsVal(t, 0)
Small(t) == Len(t) <= 8
\* The largest and smallest of every width
Limits == { r[2] : r \in {Int8Range, Int16Range, Int32Range, Int64Range, UInt8Range, UInt16Range, UInt32Range, UInt64Range} }
          \cup { <<45>> \o r[1] : r \in {Int8Range, Int16Range, Int32Range, Int64Range} }
          \cup { D(<<2,1,4,7,4,8,3,6,4,8>>), D(<<4,2,9,4,9,6,7,2,9,6>>), D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), D(<<4,2,9,4,9,6,7,1,6,8>>), D(<<4,2,9,4,9,6,7,2,9,7>>) }
Candidates(T) == { IntOf(i) : i \in -135..135 } \cup Limits
                 \cup UNION { IF Small(T[3][j][1]) THEN { IntOf(SmallVal(T[3][j][1]) + i) : i \in -3..3 } ELSE {T[3][j][1]} : j \in 1..Len(T[3]) }
Numbers(T) == { n \in Candidates(T) : Fits(n, IntRange(T[2])) }

Upper(b) == IF b \in 97..122 THEN b - 32 ELSE b
\* One edit of a string
Edits(s) ==
    { [s EXCEPT ![i] = x] : i \in 1..Len(s), x \in {0, 32, 48, 64, 91, 95, 96, 97, 123, 255} }
    \cup { [s EXCEPT ![i] = IF @ \in 97..122 THEN @ - 32 ELSE IF @ \in 65..90 THEN @ + 32 ELSE IF @ < 128 THEN (@ + 32) % 128 ELSE @ - 128] : i \in 1..Len(s) }
    \cup { [s EXCEPT ![i] = (@ + 1) % 256] : i \in 1..Len(s) }
    \cup { RemoveAt(s, i) : i \in 1..Len(s) }
    \cup { InsertAt(s, i, x) : i \in 1..(Len(s) + 1), x \in {0, 32, 48, 58, 95, 97} }
    \cup { [i \in 1..Len(s) |-> Lower(s[i])], [i \in 1..Len(s) |-> Upper(s[i])] }

VARIABLES t, ph, d, n
vars == <<t, ph, d, n>>
T0 == Ty[t]
Init ==
    /\ t \in 1..Len(Ty) /\ n = 0
    /\ \/ ph = "x" /\ d \in { <<"e", x>> : x \in Numbers(Ty[t]) }
       \/ ph = "v" /\ d \in { Str(Ty[t][3][i][2]) : i \in 1..Len(Ty[t][3]) }
       \/ ph = "v" /\ d \in { Str(Ty[t][3][i][1]) : i \in 1..Len(Ty[t][3]) } \cup { Str(<<>>), Null, Bool(TRUE), EmptyArr, EmptyObj, Arr(<<Num(<<48>>)>>) }
       \/ ph = "v" /\ d \in { Str(Ty[t][3][i][2] \o sep \o Ty[t][3][j][2]) : i \in 1..Len(Ty[t][3]), j \in 1..Len(Ty[t][3]), sep \in {<<>>, <<58, 58>>} }
       \/ ph = "v" /\ d \in { Num(x) : x \in Candidates(Ty[t]) }
       \/ ph = "v" /\ d \in { Num(x \o y) : x \in {<<48>>, <<49>>} \cup { Ty[t][3][i][1] : i \in 1..Len(Ty[t][3]) }, y \in {<<46, 48>>, <<101, 48>>, <<46, 53>>, <<69, 43, 49>>} }
Write == ph = "x" /\ (Writable(T0, d) = TRUE) /\ ph' = "v" /\ d' = Enc(T0, d) /\ n' = MaxEdits /\ UNCHANGED t
Edit == ph = "v" /\ n < MaxEdits /\ d[1] = "s" /\ d' \in { Str(s) : s \in Edits(d[2]) } /\ n' = n + 1 /\ UNCHANGED <<t, ph>>
Next == Write \/ Edit
Spec == Init /\ [][Next]_vars
View == <<t, ph, d>>

\* Every enumerator is written under its name (or number) and comes back.
RoundTrip == (ph = "x" /\ Writable(T0, d)) => Is(T0, Enc(T0, d)) /\ Dec(T0, Enc(T0, d)) = d
\* Only enumerators have names, and what is read from a string is an enumerator.
Named == (ph = "v" /\ d[1] = "s" /\ Is(T0, d)) => \E i \in 1..Len(T0[3]) : Dec(T0, d) = <<"e", T0[3][i][1]>> /\ SameName(d[2], T0[3][i][2])
Emitted == IF ph = "x" THEN PrintT(ToJson([op |-> "tojson", t |-> t, x |-> d])) ELSE PrintT(ToJson([op |-> "conv", t |-> t, v |-> d]))
===============================================================================
