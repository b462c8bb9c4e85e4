--------------------------------- MODULE Faults ---------------------------------
(***************************************************************************)
(* Calls that run out of memory.                                             *)
(*                                                                           *)
(* An allocation may fail at any point of a call.  The call then ends by       *)
(* throwing std::bad_alloc, and the store is one of Left(st, a): most calls     *)
(* have happened or have not; a value that was empty may have become the        *)
(* container that the call needs, a member that is assigned to may be there      *)
(* without its new value, an operand that is moved from may have lost its        *)
(* value.  Merges and concatenations in place, which consist of many             *)
(* insertions, may have been done in part (Partly).                             *)
(***************************************************************************)
EXTENDS Store

\* The operand that a call moves from, as a sequence of at most one handle.
MovedFrom(a) ==
    CASE a[1] \in {"v.move", "a.move", "o.move", "a.pushm", "n.moveV", "n.moveA", "n.moveO"} -> <<a[3]>>
      [] a[1] \in {"v.kmove", "o.kmove", "o.empm"} -> <<a[4]>>
      [] a[1] \in {"v.fromA", "v.fromO", "n.fromA", "n.fromO", "a.pushA", "a.pushO", "v.pluseq", "a.pluseq", "v.oreq", "o.oreq"} -> IF a[4] = "m" THEN <<a[3]>> ELSE <<>>
      [] a[1] \in {"v.plus", "a.plus", "v.or", "o.or"} -> IF RMove(a[4]) THEN <<a[3]>> ELSE <<>>
      [] OTHER -> <<>>
Consumed(a) == a[1] \in {"v.plus", "a.plus", "v.or", "o.or"} /\ LMove(a[4])

\* The kind of container that the receiver, a value, is needed as.
Needs(a) == CASE a[1] \in {"v.asA", "v.deli", "v.empA", "v.empAc", "v.pluseq"} -> "a"
              [] a[1] \in {"v.asO", "v.delk", "v.kidx", "v.kset", "v.kcopy", "v.kmove", "v.empO", "v.empOc", "v.oreq"} -> "o"
              [] a[1] = "v.plus" -> IF LMove(a[4]) THEN "a" ELSE ""
              [] a[1] = "v.or" -> IF LMove(a[4]) THEN "o" ELSE ""
              [] OTHER -> ""
Creates(a) == a[1] \in {"v.kidx", "v.kset", "v.kcopy", "v.kmove", "o.kidx", "o.kset", "o.kcopy", "o.kmove"}

\* The stores in which a call may leave off, apart from having lost the operand that it moves from.
Stages(st, a) ==
    LET h == a[2]
        k == Needs(a)
        vivified == IF k # "" /\ CanBe(At(st, h), k) THEN { Set(st, h, Viv(At(st, h), k)) } ELSE {}
        created == IF ~Creates(a) \/ (Group(a) = "v" /\ ~CanBe(At(st, h), "o")) THEN {}
                   ELSE { Set(st, h, WithKey(Viv(At(st, h), "o"), a[3])) }
    IN {st} \cup vivified \cup created
\* A call that refuses its receiver or an operand has not moved from any.
Refuses(st, a) == Apply(st, a)[2][1] \in {"jexc", "exc"}
Lost(c, st, a) ==
    LET gs == MovedFrom(a) IN
    IF Refuses(st, a) THEN {c} ELSE
    {c} \cup (IF gs # <<>> /\ Exists(c, gs[1]) THEN { Set(c, gs[1], AnyOf(IF IsV(st, gs[1]) /\ a[1] \in {"v.move", "a.pushm", "v.kmove", "o.kmove", "o.empm", "n.moveV"} THEN "v" ELSE At(st, gs[1])[1])) } ELSE {})
        \cup (IF Consumed(a) THEN { Set(c, a[2], AnyOf(At(c, a[2])[1])) } ELSE {})
        \cup (IF Consumed(a) /\ gs # <<>> /\ ~Overlap(a[2], gs[1]) THEN { Set(Set(c, a[2], AnyOf(At(c, a[2])[1])), gs[1], AnyOf(At(st, gs[1])[1])) } ELSE {})
Left(st, a) == UNION { Lost(c, st, a) : c \in Stages(st, a) } \cup { Apply(st, a)[1] }

\* Calls that the specification says less about: composite uses, and operands that contain each other.
Loose(st, a) ==
    \/ a[1] = "v.use"
    \/ MovedFrom(a) # <<>> /\ (IF Group(a) = "n" THEN a[2] = SlotOf(a[3]) ELSE Overlap(a[2], MovedFrom(a)[1]))
    \/ Consumed(a) /\ Overlap(a[2], a[3])

\* x with some of y, for receivers that are extended in place
Partly(x, y, z) ==
    IF z[1] = "a" THEN /\ Len(z[2]) \in Len(x[2])..(Len(x[2]) + Len(y[2]))
                       /\ z[2] = SubSeq(x[2] \o y[2], 1, Len(z[2]))
    ELSE /\ \A i \in 1..Len(x[2]) : HasKey(z[2], x[2][i][1])
         /\ \A i \in 1..Len(z[2]) : \/ HasKey(x[2], z[2][i][1]) /\ GetKey(x, z[2][i][1]) = z[2][i][2]
                                    \/ HasKey(y[2], z[2][i][1]) /\ z[2][i][2] \in {GetKey(y, z[2][i][1]), Null}
InPlace(a) == a[1] \in {"v.pluseq", "a.pluseq", "v.oreq", "o.oreq"}
PartlyDone(st, a, s) ==
    LET h == a[2]  g == a[3]
        k == IF a[1] \in {"v.pluseq", "a.pluseq"} THEN "a" ELSE "o"
        x == Viv(At(st, h), k)
    IN /\ CanBe(At(st, h), k)
       /\ a[4] = "m" => ~Overlap(h, g)
       /\ IsA(s, h) \/ IsO(s, h)
       /\ At(s, h)[1] = k
       /\ Partly(x, At(st, g), At(s, h))
       \* nothing but the receiver differs, and the operand when it is moved from
       /\ LET b == Set(s, h, At(st, h)) IN IF a[4] = "m" THEN Exists(b, g) /\ Set(b, g, At(st, g)) = st ELSE b = st

\* s is a store in which the failed call a may have left the store st.
MayLeave(st, a, s) ==
    /\ ValidStore(s)
    /\ Len(s) = Len(st)
    /\ \A k \in 1..Len(st) : s[k][1] = st[k][1] /\ (k \notin Touched(a) => s[k] = st[k])
    /\ \/ Loose(st, a)
       \/ \E c \in Left(st, a) : MatchStore(c, s)
       \/ InPlace(a) /\ PartlyDone(st, a, s)

\* An observed ending <<result, store, whether memory was lost>> of a call in which an allocation failed.
FaultOK(st, a, f) ==
    /\ f[3] = FALSE
    /\ IF f[1] = <<"bad">> THEN MayLeave(st, a, f[2])
       ELSE LET e == Apply(st, a) IN \/ MatchResult(e[2], f[1]) /\ MatchStore(e[1], f[2])
                                     \/ a[1] = "v.use" /\ f[1][1] = "u" /\ ValidStore(f[2])
===============================================================================
