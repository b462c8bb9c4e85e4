------------------------------ MODULE JudgeTypes ------------------------------
(***************************************************************************)
(* Checks what the implementation answered about types (one line per initial *)
(* state).  IOEnv.TYPES names the types, IOEnv.TRACE the lines, IOEnv.PROP the  *)
(* property being decided.  Every list in `obs` holds the distinct outcomes of  *)
(* several ways to do the same thing.                                         *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Ty    == ndJsonDeserialize(IOEnv.TYPES)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

\* What can be told about every outcome of a list
Every(l, P(_)) == \A i \in 1..Len(l) : P(l[i][1])
Refused(o) == o = <<"jexc">>

(***************************************************************************)
(* C++ to JSON and back (C17), and what it leaves behind (C19).             *)
(***************************************************************************)
WrittenOK(T, x, o) == IF Writable(T, x) THEN o[1] = "ok" /\ WrittenAs(T, x, o[2]) ELSE Refused(o)
\* every way writes the same
OneWriting(T, x, l) == Every(l, LAMBDA o : WrittenOK(T, x, o))
\* What is read back. How floating-point values were written decides which alternative of a variant takes them.
BackOK(T, x, vs, l) == LET e == Dec(T, Enc(T, x)) IN
                       Every(l, LAMBDA o : o[1] = "ok" /\ (XEq(e, o[2]) \/ (~Clear(T) /\ \E i \in 1..Len(vs) : XEq(Dec(T, vs[i][1][2]), o[2]))))
ToJsonOK(t) ==
    LET T == Ty[t.t] IN
    CASE Prop \in {"C17", "C18", "C20", "C21", "C23", "C24", "C25"} -> OneWriting(T, t.x, t.obs.v) /\ (Writable(T, t.x) => BackOK(T, t.x, t.obs.v, t.obs.back))
      [] Prop = "C27" -> OneWriting(T, t.x, t.obs.v) /\ Every(t.obs.src, LAMBDA x : x = t.x) /\ (Writable(T, t.x) => BackOK(T, t.x, t.obs.v, t.obs.back))
      [] Prop = "C19" -> Every(t.obs.src, LAMBDA x : x = t.x) /\ OneWriting(T, t.x, t.obs.v)

(***************************************************************************)
(* JSON to C++ (C16).  Casting an empty JSON value as an rvalue may convert    *)
(* it (C13), so what it gives is not judged.                                  *)
(***************************************************************************)
Converted(T, v, o) == IF Is(T, v) THEN o[1] = "ok" /\ XEq(Dec(T, v), o[2]) ELSE Refused(o)
Found(T, v, o) == IF Is(T, v) THEN o[1] = "ok" /\ XEq(Dec(T, v), o[2]) ELSE o = <<"none">>
Got(T, v, o) == IF Is(T, v) THEN o[1] = "ok" /\ XEq(Dec(T, v), o[2]) ELSE o = <<"ok", Default(T)>>
EmptyValue(v) == v[1] = "z" \/ (v[1] \in {"s", "a", "o"} /\ v[2] = <<>>)
AllOf(T, v) ==
    CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : Is(T, v[2][i])
      [] v[1] = "o" -> \A i \in 1..Len(v[2]) : Is(T, v[2][i][2])
      [] OTHER -> FALSE
ConvOK(t) ==
    LET T == Ty[t.t] IN
    /\ Every(t.obs.is, LAMBDA o : o = Bool(Is(T, t.v)))
    /\ Every(t.obs.as, LAMBDA o : Converted(T, t.v, o))
    /\ EmptyValue(t.v) \/ Every(t.obs.mv, LAMBDA o : Converted(T, t.v, o))
    /\ Every(t.obs.find, LAMBDA o : Found(T, t.v, o))
    /\ Every(t.obs.get, LAMBDA o : Got(T, t.v, o))
    /\ Every(t.obs.miss, LAMBDA o : o = <<"none">>)
    /\ Every(t.obs.all, LAMBDA o : o = Bool(AllOf(T, t.v)))

(***************************************************************************)
(* Reflected structs (C22).                                                 *)
(***************************************************************************)
RecOK(t) ==
    LET T == Ty[t.t]
        c == RecCheck(T, t.v)
    IN  /\ Every(t.obs.chk, LAMBDA o : o = c)
        /\ Every(t.obs.simple, LAMBDA o : o = Bool(c[1] = "b"))
        /\ Every(t.obs.from, LAMBDA o : IF c[1] = "b" THEN o[1] = "ok" /\ RecLoaded(T, t.v, t.x, o[2])
                                        ELSE o[1] = "no" /\ o[2] = c[2] /\ RecLoaded(T, t.v, t.x, o[3]))
        /\ Every(t.obs.as, LAMBDA o : Converted(T, t.v, o))

OK(t) ==
    CASE t.op = "tojson" -> ToJsonOK(t)
      [] t.op = "conv"   -> ConvOK(t)
      [] t.op = "rec"    -> RecOK(t)

VARIABLES i, ph
Init == i \in 1..Len(Trace) /\ ph = "todo"
Next == ph = "todo" /\ i' = i /\ ph' = (IF OK(Trace[i]) THEN "ok" ELSE "bad")
Spec == Init /\ [][Next]_<<i, ph>>
Accepted == ph # "bad"
===============================================================================
