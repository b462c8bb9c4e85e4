--------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* Writing and reading numbers while the process's environment changes: the    *)
(* C locale, the global C++ locale, errno.  The state is <<environment, token    *)
(* held>>; what a step gives depends on the token alone.                       *)
(*   <<"c", l>> <<"cpp", l>> <<"err", n>>   change the environment               *)
(*   <<"w", k, d>>    write the decimal d as a floating-point type, hold it        *)
(*   <<"wi", k, t>>   write an integer, hold it                                  *)
(*   <<"t", t>>       parse a number token, hold it                              *)
(*   <<"dump">>       the text of what is held                                  *)
(*   <<"r", k>>       read what is held as a type                                *)
(* A held number is <<"dec", d>> (a token for the decimal d, written by the      *)
(* library) or <<"tok", t>> (exactly these bytes).                              *)
(***************************************************************************)
EXTENDS JsonFloat

Floats == {"f32", "f64", "f80"}
IntRangeOf(k) == CASE k = "i32" -> Int32Range [] k = "i64" -> Int64Range [] k = "u64" -> UInt64Range

Changes(s) == s[1] \in {"c", "cpp", "err"}
Held(s, h) == CASE s[1] = "w"  -> <<"dec", s[3]>>
                [] s[1] = "wi" -> <<"tok", s[3]>>
                [] s[1] = "t"  -> <<"tok", s[2]>>
                [] OTHER -> h

\* A step shows the text of a number
Texts(s) == s[1] \in {"w", "wi", "t", "dump"}
TextOK(h, t) == IF h[1] = "tok" THEN t = h[2] ELSE IsNumberToken(t) /\ DecimalOf(t) = h[2]

\* Reading the number: <<"ok", x>>, <<"jexc">>, or <<"some">> where the digits kept do not say
ReadResult(h, k) ==
    IF k \in Floats THEN
        LET d == IF h[1] = "dec" THEN h[2] ELSE DecimalOf(h[2])
            t == IF h[1] = "dec" THEN DecText(d) ELSE h[2]
        IN  IF ~FReadable(k, t) THEN <<"jexc">> ELSE IF FExact(k, d) THEN <<"ok", d>> ELSE <<"some">>
    ELSE IF h[1] = "tok" THEN (IF Fits(h[2], IntRangeOf(k)) THEN <<"ok", Num(IntText(h[2]))>> ELSE <<"jexc">>)
    ELSE <<"any">>                            \* whether a float is written without a fraction is open
===============================================================================
