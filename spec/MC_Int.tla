-------------------------------- MODULE MC_Int --------------------------------
(***************************************************************************)
(* Explores the number tokens around the limits of the integer types: from     *)
(* every limit, power of ten and power of two by a few edits, for every integer *)
(* type of IOEnv.TYPES.                                                       *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

CONSTANT MaxEdits

Ty == ndJsonDeserialize(IOEnv.TYPES)

\* Adding to and subtracting from a magnitude
AddOne(ds) == Incr(ds, Len(ds))
RECURSIVE Borrow(_, _)
Borrow(ds, i) == IF ds[i] = 48 THEN Borrow([ds EXCEPT ![i] = 57], i - 1) ELSE [ds EXCEPT ![i] = @ - 1]
SubOne(ds) == IF ds = <<48>> THEN ds ELSE LET x == StripLead(Borrow(ds, Len(ds))) IN IF x = <<>> THEN <<48>> ELSE x
RECURSIVE Double(_, _, _)
Double(ds, i, carry) == IF i = 0 THEN (IF carry = 0 THEN ds ELSE <<49>> \o ds)
                        ELSE LET y == (ds[i] - 48) * 2 + carry IN Double([ds EXCEPT ![i] = 48 + (y % 10)], i - 1, y \div 10)
RECURSIVE PowTwo(_)
PowTwo(n) == IF n = 0 THEN <<49>> ELSE LET p == PowTwo(n - 1) IN Double(p, Len(p), 0)
PowTen(n) == <<49>> \o [i \in 1..n |-> 48]

\* Which numbers start an exploration
Starts == { <<48>>, D(<<5>>) } \cup { PowTwo(k) : k \in {7, 8, 15, 16, 23, 24, 31, 32, 33, 52, 53, 62, 63, 64, 65, 127, 128} } \cup { PowTen(k) : k \in {1, 2, 9, 10, 11, 17, 18, 19, 20, 21, 22, 40} }

Edits(tk) ==
    LET neg == Neg(tk)
        m   == Mag(tk)
        put(x) == IF neg THEN <<45>> \o x ELSE x
    IN  IF ~IsPlainInt(tk) THEN {} ELSE
        { put(AddOne(m)), put(SubOne(m)), put(Double(m, Len(m), 0)) }
        \cup { IF neg THEN m ELSE <<45>> \o m }
        \cup { put((IF m = <<48>> THEN <<>> ELSE m) \o <<x>>) : x \in {48, 53, 57} }
        \cup { put(<<x>> \o m) : x \in {49, 57} }
        \cup (IF Len(m) > 1 THEN { put(SubSeq(m, 1, Len(m) - 1)), put([m EXCEPT ![1] = 57]), put([m EXCEPT ![1] = 49]) } ELSE {})
        \cup { tk \o x : x \in { <<46, 48>>, <<46, 53>>, <<46, 48, 48, 49>>, <<101, 48>>, <<69, 43, 48>>, <<101, 45, 48>>, <<101, 49>>, <<101, 45, 49>>, <<46, 48, 101, 49>> } }

VARIABLES t, tk, n
vars == <<t, tk, n>>
Init == t \in 1..Len(Ty) /\ tk \in Starts /\ n = 0
Edit == n < MaxEdits /\ tk' \in Edits(tk) /\ n' = n + 1 /\ UNCHANGED t
Spec == Init /\ [][Edit]_vars
View == <<t, tk>>

Grammar == IsNumberToken(tk)
\* Writing what was read gives the same text (except for minus zero), and only plain integers are read.
Exact == LET v == Num(tk) IN
         /\ Is(Ty[t], v) => IsPlainInt(tk) /\ (tk # <<45, 48>> => Dec(Ty[t], v) = v)
         \* what one type can hold, a wider one of the same kind can
         /\ (Ty[t][2] = "i32" /\ Is(Ty[t], v)) => Is(<<"int", "i64">>, v)
         /\ (Ty[t][2] = "u32" /\ Is(Ty[t], v)) => Is(<<"int", "u64">>, v) /\ (tk # <<45, 48>> => Is(<<"int", "i64">>, v))
         \* order: between two that fit, everything fits
         /\ (IsPlainInt(tk) /\ ~Is(Ty[t], v)) => (Neg(tk) \/ MagLe(AddOne(IntRange(Ty[t][2])[2]), tk))
IsUnsigned == Ty[t][2] \in {"u8", "u16", "u32", "u64"}
\* reading -0 as an unsigned type is left open
Emitted == /\ (IsUnsigned /\ tk = <<45, 48>>) \/ PrintT(ToJson([op |-> "conv", t |-> t, v |-> Num(tk)]))
           /\ (Is(Ty[t], Num(tk)) /\ tk # <<45, 48>>) => PrintT(ToJson([op |-> "tojson", t |-> t, x |-> Num(tk)]))
===============================================================================
