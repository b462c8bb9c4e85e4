------------------------------- MODULE MC_Float -------------------------------
(***************************************************************************)
(* The space of binary floating-point values: sign, exponent field and a        *)
(* mantissa given as a pattern of bits.  Walks from zero through all exponents,  *)
(* and at each of them through the mantissas with one bit set or cleared, runs   *)
(* of bits from either end, and alternating bits.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Step        \* of the bit positions that patterns use

MBits(k) == CASE k = "f32" -> 23 [] k = "f64" -> 52 [] k = "f80" -> 63
MaxExp(k) == CASE k = "f32" -> 254 [] k = "f64" -> 2046 [] k = "f80" -> 32766
EStep(k) == IF k = "f80" THEN 13 ELSE 1

Positions(k) == { i \in 0..(MBits(k) - 1) : i % Step = 0 \/ i = MBits(k) - 1 }
Patterns(k) == { <<"none", 0>>, <<"even", 0>>, <<"odd", 0>> }
               \cup { <<p, i>> : p \in {"one", "allbut", "low", "high"}, i \in Positions(k) }

VARIABLES k, s, e, m
vars == <<k, s, e, m>>
Init == k \in {"f32", "f64", "f80"} /\ s = FALSE /\ e = 0 /\ m = <<"none", 0>>
Raise == m[1] = "none" /\ e + EStep(k) <= MaxExp(k) /\ e' = e + EStep(k) /\ UNCHANGED <<k, s, m>>
Negate == m[1] = "none" /\ ~s /\ s' = TRUE /\ UNCHANGED <<k, e, m>>
Fill == m[1] = "none" /\ m' \in Patterns(k) \ {<<"none", 0>>} /\ UNCHANGED <<k, s, e>>
Next == Raise \/ Negate \/ Fill
Spec == Init /\ [][Next]_vars

Finite == e \in 0..MaxExp(k)
Emitted == PrintT(ToJson([op |-> "fl", k |-> k, s |-> s, e |-> e, m |-> m]))
===============================================================================
