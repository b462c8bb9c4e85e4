------------------------------- MODULE JudgeEnv -------------------------------
(***************************************************************************)
(* Checks recorded histories against Env: h the steps, obs the results of each,  *)
(* <<result, how>> for all ways to take the step that differ.                   *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

ReadOK(h, k, r) == LET e == ReadResult(h, k) IN
    CASE e[1] = "any" -> TRUE
      [] e[1] = "some" -> r[1] = "ok"
      [] OTHER -> r = e
StepOK(s, h, o) ==                             \* h: what is held after the step
    IF Changes(s) THEN o = <<>>
    ELSE /\ Len(o) = 1                         \* all ways agree
         /\ IF Texts(s) THEN o[1][1][1] = "ok" /\ TextOK(h, o[1][1][2])
            ELSE ReadOK(h, s[2], o[1][1])

RECURSIVE OK(_, _, _, _)
OK(hist, obs, k, held) ==
    IF k > Len(hist) THEN Len(obs) = Len(hist)
    ELSE LET h == Held(hist[k], held) IN StepOK(hist[k], h, obs[k]) /\ OK(hist, obs, k + 1, h)

VARIABLES i, ph
Init == i \in 1..Len(Trace) /\ ph = "todo"
Next == ph = "todo" /\ i' = i /\ ph' = (IF OK(Trace[i].h, Trace[i].obs, 1, <<"tok", <<48>>>>) THEN "ok" ELSE "bad")
Spec == Init /\ [][Next]_<<i, ph>>
Accepted == ph # "bad"
===============================================================================
