------------------------------ MODULE JudgeStore ------------------------------
(***************************************************************************)
(* Validates recorded histories of the programming interface against the     *)
(* store machine.                                                            *)
(*                                                                           *)
(* A trace line holds the store at the start and, for every call, the call    *)
(* as it was made, its result and the store observed after it.  The machine   *)
(* follows the history: the store variable takes the observed store, which    *)
(* for the calls that the property owns has to be one that the specified       *)
(* call can lead to.                                                          *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLES tr, k, st, ok
vars == <<tr, k, st, ok>>

Init == tr \in 1..Len(Trace) /\ k = 0 /\ st = Trace[tr].st /\ ok = TRUE

StepOK(s) ==
    /\ ValidStore(s.st)
    /\ Len(s.st) = Len(st) /\ \A j \in 1..Len(st) : s.st[j][1] = st[j][1]
    /\ (Prop \in {"C09", "C10"}) => \A j \in (1..Len(st)) \ Touched(s.a) : s.st[j] = st[j]
    /\ Owned(Prop, s.a[1]) =>
          /\ Assert(Enabled(st, s.a), <<"the recorded call is not one that the specification covers", st, s.a>>)
          /\ LET e == Apply(st, s.a) IN MatchStore(e[1], s.st) /\ MatchResult(e[2], s.r)

Next == /\ ok /\ k < Len(Trace[tr].steps)
        /\ LET s == Trace[tr].steps[k + 1] IN ok' = StepOK(s) /\ st' = s.st
        /\ k' = k + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == ok
===============================================================================
