------------------------------- MODULE JudgeFault -------------------------------
(***************************************************************************)
(* Validates recorded calls that ran out of memory.                          *)
(*                                                                           *)
(* A history line is one of the programming interface (JudgeStore) in which    *)
(* every call was first tried with each of its allocations failing; f lists     *)
(* how these attempts ended.  The other lines record parsing (fp) and copying    *)
(* and serialising (fd) with failing allocations.                                *)
(***************************************************************************)
EXTENDS Faults, JsonParser, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, k, st, ok
vars == <<tr, k, st, ok>>

IsHistory(t) == "steps" \in DOMAIN t
Steps(t) == IF IsHistory(t) THEN Len(t.steps) ELSE 1
Init == tr \in 1..Len(Trace) /\ k = 0 /\ st = (IF IsHistory(Trace[tr]) THEN Trace[tr].st ELSE <<>>) /\ ok = TRUE

StepOK(s) == /\ Assert(Enabled(st, s.a), <<"the recorded call is not one that the specification covers", st, s.a>>)
             /\ LET e == Apply(st, s.a) IN MatchStore(e[1], s.st) /\ MatchResult(e[2], s.r)
             /\ \A i \in 1..Len(s.f) : FaultOK(st, s.a, s.f[i])

\* Reading and writing texts: the call gives its result or runs out of memory; it loses none and changes nothing.
Ends(l, good(_)) == \A i \in 1..Len(l) : l[i][2] = FALSE /\ (l[i][1] = <<"bad">> \/ good(l[i][1]))
ParseEnds(l, p) == Ends(l, LAMBDA x : p[1] = "unspec" \/ (x[1] = p[1] /\ (p[1] = "acc" => x[2] = p[2])))
PureOK(t) ==
    IF t.op = "fp" THEN LET s == Parse(t.doc, FALSE) c == Parse(t.doc, TRUE) IN
                         /\ ParseEnds(t.obs.s, s) /\ ParseEnds(t.obs.ts, s)
                         /\ ParseEnds(t.obs.c, c) /\ ParseEnds(t.obs.tc, c)
    ELSE /\ Ends(t.obs.c, LAMBDA x : x = <<"text", Dump(t.v)>>)
         /\ Ends(t.obs.f, LAMBDA x : x = <<"text", Format(t.v, 2)>>)
         /\ Ends(t.obs.x, LAMBDA x : x = <<"v", t.v>>)
         /\ t.obs.v = t.v

Next == /\ ok /\ k < Steps(Trace[tr])
        /\ IF IsHistory(Trace[tr]) THEN LET s == Trace[tr].steps[k + 1] IN ok' = StepOK(s) /\ st' = s.st
           ELSE ok' = PureOK(Trace[tr]) /\ st' = st
        /\ k' = k + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == ok
===============================================================================
