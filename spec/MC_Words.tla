------------------------------- MODULE MC_Words -------------------------------
(***************************************************************************)
(* Sequences of bytes that mean something somewhere: byte order marks, line     *)
(* separators, ill-formed and overlong UTF-8, surrogates, composed and           *)
(* decomposed letters, markup, comments, escapes, words of other languages.  To  *)
(* this grammar they are nothing but bytes; wherever they stand, they are        *)
(* parsed, kept and written like any other.                                     *)
(*                                                                         *)
(* A state is a place and up to two words after a number of plain letters.      *)
(***************************************************************************)
EXTENDS JsonParser, JsonText, TLC, Json

CONSTANTS Pads, Values, Emit

Words == <<
    <<239, 187, 191>>, <<239, 187>>, <<187, 191>>, <<226, 128, 168>>, <<226, 128, 169>>, <<239, 191, 189>>,
    <<239, 191, 190>>, <<239, 191, 191>>, <<194, 160>>, <<194, 133>>, <<194, 173>>, <<226, 128, 139>>,
    <<226, 128, 141>>, <<227, 128, 128>>, <<192, 128>>, <<193, 191>>, <<224, 128, 128>>, <<224, 159, 191>>,
    <<240, 128, 128, 128>>, <<237, 160, 128>>, <<237, 191, 191>>, <<237, 160, 189, 237, 184, 128>>,
    <<240, 159, 152, 128>>, <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<248, 136, 128, 128, 128>>,
    <<254, 255>>, <<255, 254>>, <<195>>, <<228, 184>>, <<228, 184, 173>>, <<101, 204, 129>>, <<195, 169>>,
    <<199, 133>>, <<239, 172, 129>>, <<127>>, <<60, 47, 115, 99, 114, 105, 112, 116, 62>>,
    <<60, 33, 45, 45>>, <<45, 45, 62>>, <<93, 93, 62>>, <<60, 38, 62>>, <<38, 97, 109, 112, 59>>, <<47, 47>>,
    <<47, 42>>, <<42, 47>>, <<35>>, <<110, 117, 108, 108>>, <<116, 114, 117, 101>>,
    <<102, 97, 108, 115, 101>>, <<78, 97, 78>>, <<73, 110, 102, 105, 110, 105, 116, 121>>, <<45, 49>>,
    <<48, 120, 49, 48>>, <<49, 101, 53>>, <<37, 115>>, <<37, 110>>, <<36, 123, 97, 125>>, <<123, 123>>,
    <<125, 125>>, <<91, 93>>, <<123, 125>>, <<34, 58>>, <<34, 44, 34>>, <<92, 117, 48, 48, 48, 48>>,
    <<92, 117, 50, 48, 50, 56>>, <<92, 117, 102, 101, 102, 102>>, <<92, 120, 52, 49>>, <<92, 92>>,
    <<92, 47>>, <<13, 10>>, <<10>>, <<9>>, <<0>>, <<27, 91, 48, 109>>, <<39>>, <<96>>,
    <<95, 95, 112, 114, 111, 116, 111, 95, 95>>, <<36, 114, 101, 102>>, <<46>>, <<46, 46>>, <<32>>,
    <<32, 32>>, <<97>>, <<65>>>>

Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
Places == [ str |-> << <<91, 34>>, <<34, 93>> >>, key |-> << <<123, 34>>, <<34, 58, 49, 125>> >>, second |-> << <<91, 34, 34, 44, 34>>, <<34, 93>> >>,
            raw |-> << <<>>, <<91, 93>> >>, inside |-> << <<91>>, <<93>> >>, after |-> << <<91, 49>>, <<93>> >>, colon |-> << <<123, 34, 97, 34>>, <<58, 49, 125>> >>,
            line |-> << <<91, 47, 47>>, <<10, 49, 93>> >>, block |-> << <<91, 47, 42>>, <<42, 47, 49, 93>> >>, trail |-> << <<91, 93>>, <<>> >> ]
Strings == {"str", "key", "second"}

VARIABLES place, pad, w1, w2
vars == <<place, pad, w1, w2>>

Txt == Letters(pad) \o Words[w1] \o (IF w2 > 0 THEN Words[w2] ELSE <<>>)
Init == w1 \in 1..Len(Words) /\ place = "str" /\ pad = 0 /\ w2 = -1
\* one word anywhere, behind any padding; two words next to each other
Next == /\ w2 = -1 /\ UNCHANGED w1
        /\ \E p \in (IF Values THEN {"str", "key"} ELSE DOMAIN Places) : place' = p
        /\ \/ pad' \in Pads /\ w2' = 0
           \/ pad' = 0 /\ w2' \in 1..Len(Words) /\ place' \in Strings
Spec == Init /\ [][Next]_vars

Doc == Places[place][1] \o Txt \o Places[place][2]
Val == IF place = "key" THEN Obj(<< <<Txt, Str(Txt)>> >>) ELSE Arr(<< Str(Txt), Str(Words[w1]) >>)

Res(r) == IF r[1] = "acc" THEN r ELSE <<r[1]>>
Sub == (w2 >= 0 /\ ~Values) => LET s == Parse(Doc, FALSE) c == Parse(Doc, TRUE) IN s[1] = "acc" => c = s
Trip == (w2 >= 0 /\ Values) => Parse(Dump(Val), FALSE) = <<"acc", Val>>

Widths == <<0, 3>>
Vec == IF Values
       THEN [op |-> "d", full |-> 1, v |-> Val, ws |-> Widths,
             exp |-> [c |-> <<Dump(Val)>>, f |-> [k \in 1..2 |-> <<Widths[k], <<Format(Val, Widths[k])>>, <<"acc", Val>>>>],
                      p |-> <<"acc", Val>>, eq |-> <<"eq">>, same |-> TRUE]]
       ELSE [op |-> "p", both |-> 1, doc |-> Doc, exp |-> [s |-> Res(Parse(Doc, FALSE)), c |-> Res(Parse(Doc, TRUE))]]
Emitted == Emit /\ w2 >= 0 => PrintT(ToJson(Vec))
===============================================================================
