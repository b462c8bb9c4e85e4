-------------------------------- MODULE MC_Fault --------------------------------
(***************************************************************************)
(* Exhaustive exploration of failing calls: every call of the interface in    *)
(* every store of up to MaxNodes parts, with every store in which it may       *)
(* leave off.  What the property demands of a failed call is stated here on     *)
(* its own, and checked of every such store.                                   *)
(***************************************************************************)
EXTENDS MC_Store, Faults

Constructs == {"n.copyV", "n.copyA", "n.copyO", "n.sized", "n.listA", "n.seqA", "n.listO", "n.listV", "n.mapO"}
Assigns    == {"v.copy", "a.copy", "o.copy", "v.lit", "v.clear", "a.clear", "o.clear", "v.swap", "a.swap", "o.swap"}
Inserts    == {"a.push", "a.pushc", "o.emp", "o.empc", "a.deli", "a.delit", "o.delk", "o.delit", "a.iset", "a.itset", "a.icopy", "o.itset"}
Same(x, y) == x = y \/ (IsArr(x) /\ IsArr(y) /\ Len(x[2]) = Len(y[2]))
LeavesOK(a, after, s) ==
    LET n == a[1] IN
    /\ n \in ReadOnly => s = st
    /\ n \in Constructs \cup Assigns \cup Inserts => s \in {st, after}
    /\ \A k \in (1..Len(st)) \ Touched(a) : s[k] = st[k]
    /\ \A k \in 1..Len(st) : Hollow(s[k][2]) \/ WellFormed(s[k][2])
    \* something unspecified is only ever left behind by a call that moves from it
    /\ (\E k \in 1..Len(st) : Hollow(s[k][2])) => MovedFrom(a) # <<>> \/ Consumed(a)
    \* a call that refuses its receiver refuses it before it changes anything
    /\ (Apply(st, a)[2][1] \in {"jexc", "exc"} /\ MovedFrom(a) = <<>> /\ n \notin {"v.delk", "v.deli"}) => s = st

Fail ==
    \E n \in Family : \E a \in Calls(n) :
       /\ (Suits(a) /\ Enabled(st, a)) = TRUE
       /\ ~Loose(st, a)
       /\ LET e == Apply(st, a) l == Left(st, a) IN
          /\ Assert(\A s \in l : LeavesOK(a, e[1], s), <<"a failed call may leave the store as the property does not allow", st, a, l>>)
          /\ PrintT(ToJson([op |-> "f1", st |-> st, a |-> a, place |-> InPlace(a), exp |-> [r |-> e[2], st |-> e[1], left |-> SetToSeq(l)]]))
       /\ FALSE
FaultNext == Grow \/ Fail
FaultSpec == Init /\ [][FaultNext]_st
===============================================================================
