-------------------------------- MODULE MC_Rec --------------------------------
(***************************************************************************)
(* Explores the JSON objects that a reflected struct may meet: field by field,  *)
(* the member is absent, holds the field's default, another value of the        *)
(* field's type, or something else; then members of no field are added.          *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

CONSTANTS MaxOdd      \* how many of the fields may be other than present with a fitting value

Ty == ndJsonDeserialize(IOEnv.TYPES)

Others == { Null, Bool(TRUE), Num(<<55>>), Num(<<45, 49, 46, 53>>), Num(D(<<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>)), Str(<<>>), Str(<<120>>), Arr(<<Null>>), Obj(<<<<<<107>>, Num(<<49>>)>>>>) }

VARIABLES t, i, ms, odd
vars == <<t, i, ms, odd>>
F == Ty[t][2][i]
K == Len(Ty[t][2])
Init == t \in 1..Len(Ty) /\ i = 1 /\ ms = <<>> /\ odd = 0
Put(v, o) == odd + o <= MaxOdd /\ ms' = PutMember(ms, F[1], v) /\ odd' = odd + o
Present == Writable(F[2], F[4]) = TRUE /\ Put(Enc(F[2], F[4]), 0)
Absent == odd < MaxOdd /\ ms' = ms /\ odd' = odd + 1
Other == \E v \in Others : Put(v, 1)
\* not under its own name, but under the one of the C++ member, which nobody else has
Plain == Ty[t][2][i][5]
Misnamed == /\ \A j \in 1..K : Plain # Ty[t][2][j][1]
            /\ Writable(F[2], F[4]) = TRUE /\ odd < MaxOdd
            /\ ms' = PutMember(ms, Plain, Enc(F[2], F[4])) /\ odd' = odd + 1
Field == i <= K /\ i' = i + 1 /\ UNCHANGED t /\ (Present \/ Absent \/ Other \/ Misnamed)
\* names that belong to no field
Strangers == { k \in { Ty[t][2][j][5] : j \in 1..K } \cup { <<>>, <<95>>, <<122, 122, 122>>, Ty[t][2][1][1] \o <<32>>, [j \in 1..Len(Ty[t][2][1][1]) |-> IF Ty[t][2][1][1][j] \in 97..122 THEN Ty[t][2][1][1][j] - 32 ELSE Ty[t][2][1][1][j]] } :
                 \A j \in 1..K : k # Ty[t][2][j][1] }
Stranger == i = K + 1 /\ i' = K + 2 /\ \E k \in Strangers : ms' = PutMember(ms, k, Num(<<49>>)) /\ UNCHANGED <<t, odd>>
Next == Field \/ Stranger
Spec == Init /\ [][Next]_vars
View == <<t, i, ms>>

Done == i > K
V0 == Obj(ms)
\* check_json says yes exactly when every field is served, and otherwise names the first that is not.
FirstBad == Done =>
    LET c == RecCheck(Ty[t], V0)
        good(j) == LET p == KeyPos(ms, Ty[t][2][j][1]) IN IF p = 0 THEN Ty[t][2][j][3] ELSE Is(Ty[t][2][j][2], ms[p][2])
    IN  IF c[1] = "b" THEN \A j \in 1..K : good(j)
        ELSE \E j \in 1..K : c[2] = Ty[t][2][j][1] /\ ~good(j) /\ \A h \in 1..(j - 1) : good(h)
\* Members of no field make no difference.
Ignored == (i = K + 2) => \E j \in 1..Len(ms) : RecCheck(Ty[t], V0) = RecCheck(Ty[t], Obj(RemoveAt(ms, j)))
Emitted == Done => PrintT(ToJson([op |-> "rec", t |-> t, v |-> V0]))
===============================================================================
