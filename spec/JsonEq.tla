-------------------------------- MODULE JsonEq --------------------------------
(***************************************************************************)
(* Equality of values, as the programming interface defines it.             *)
(***************************************************************************)
EXTENDS JsonValue

RECURSIVE ValEq(_, _)
ValEq(v, w) ==
    /\ v[1] = w[1]
    /\ CASE v[1] = "z" -> TRUE
         [] v[1] \in {"b", "n", "s"} -> v[2] = w[2]
         [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : ValEq(v[2][i], w[2][i])
         [] v[1] = "o" -> /\ { v[2][i][1] : i \in 1..Len(v[2]) } = { w[2][i][1] : i \in 1..Len(w[2]) }
                          /\ \A i \in 1..Len(v[2]) : ValEq(v[2][i][2], w[2][KeyPos(w[2], v[2][i][1])][2])
===============================================================================
