------------------------------ MODULE JudgeFloat ------------------------------
(***************************************************************************)
(* Checks how the implementation wrote and read back floating-point values.    *)
(*   bits   the value; x the decimal of its first FDigits(k) digits             *)
(*   w      <<token, how>> for every way to write it, also after serialising     *)
(*          and parsing                                                       *)
(*   back   <<bits, how>> for every way to read such a token                     *)
(***************************************************************************)
EXTENDS JsonFloat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

OK(t) ==
    LET o == t.obs IN
    /\ Len(o.w) = 1 /\ Len(o.back) = 1                     \* all ways agree
    /\ o.w[1][1][1] = "ok" /\ IsNumberToken(o.w[1][1][2]) /\ FWritten(t.k, o.x, o.w[1][1][2])
    /\ o.back[1][1] = <<"ok", o.bits>>

VARIABLES i, ph
Init == i \in 1..Len(Trace) /\ ph = "todo"
Next == ph = "todo" /\ i' = i /\ ph' = (IF OK(Trace[i]) THEN "ok" ELSE "bad")
Spec == Init /\ [][Next]_<<i, ph>>
Accepted == ph # "bad"
===============================================================================
