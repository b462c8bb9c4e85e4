------------------------------- MODULE MC_Lanes -------------------------------
(***************************************************************************)
(* Runs: n like bytes with something at offset p of them, in every place of a  *)
(* document where runs of any length may stand (strings, names, whitespace,     *)
(* digits, comments).  An implementation that handles runs in blocks meets the  *)
(* odd one out in every lane, and the end of the run at every distance.         *)
(***************************************************************************)
EXTENDS JsonParser, TLC, Json

CONSTANTS Lengths, Emit

VARIABLES kind, n, p, x

\* kind |-> <<before, fillers, odd ones, after>>
Strs == << <<110>>, <<34>>, <<92>>, <<0>>, <<31>>, <<10>>, <<32>>, <<33>>, <<35>>, <<91>>, <<93>>, <<127>>, <<128>>, <<162>>, <<220>>, <<255>>,
           <<92, 110>>, <<92, 34>>, <<92, 92>>, <<92, 47>>, <<92, 120>>, <<92, 117, 48, 48, 101, 57>>,
           <<92, 117, 100, 56, 51, 100, 92, 117, 68, 69, 48, 48>>, <<92, 117, 100, 56, 51, 100>>, <<92, 117, 100, 101, 48, 48>>, <<92, 117, 49>> >>
Fill == << 97, 128, 255, 32, 33, 35, 91, 93, 127, 47 >>
Gap  == << <<>>, <<11>>, <<12>>, <<0>>, <<160>>, <<47>>, <<8>>, <<14>>, <<33>>, <<47, 47, 10>>, <<47, 42, 42, 47>>, <<44>>, <<255>> >>
WSs  == << 32, 10, 9, 13, 32 >>
Digs == << <<>>, <<46>>, <<101>>, <<69, 43>>, <<45>>, <<43>>, <<47>>, <<58>>, <<0>>, <<32>>, <<46, 101>>, <<97>>, <<176>> >>
Nums == << 48, 57, 49, 53 >>
Cmts == << <<>>, <<10>>, <<13>>, <<0>>, <<42, 47>>, <<42>>, <<47>>, <<34>>, <<42, 42, 47>>, <<92, 10>>, <<255>> >>
CFil == << 120, 32, 47, 34, 128, 42 >>
Kinds == [ str |-> << <<91, 34>>, Fill, Strs, <<34, 93>> >>,
           str2 |-> << <<91, 34>>, Fill, Strs, <<34, 44, 34, 120, 34, 93>> >>,
           key |-> << <<123, 34>>, Fill, Strs, <<34, 58, 49, 125>> >>,
           gap |-> << <<91>>, WSs, Gap, <<49, 93>> >>,
           gap2 |-> << <<91, 49>>, WSs, Gap, <<44, 50, 93>> >>,
           lead |-> << <<>>, WSs, Gap, <<123, 125>> >>,
           trail |-> << <<91, 93>>, WSs, Gap, <<>> >>,
           int |-> << <<91, 49>>, Nums, Digs, <<93>> >>,
           frac |-> << <<91, 48, 46, 49>>, Nums, Digs, <<44, 49, 93>> >>,
           exp |-> << <<91, 49, 101, 48>>, Nums, Digs, <<93>> >>,
           line |-> << <<91, 47, 47>>, CFil, Cmts, <<10, 49, 93>> >>,
           block |-> << <<91, 47, 42>>, CFil, Cmts, <<42, 47, 93>> >>,
           last |-> << <<91, 93, 47, 47>>, CFil, Cmts, <<>> >> ]

\* the bytes of the run take turns with the place of the odd one, so that all are used
Filler(k, i) == LET f == Kinds[k][2] IN f[1 + ((n + p + x + (IF n % 2 = 0 THEN 0 ELSE i)) % Len(f))]
Doc == LET k == Kinds[kind] r == [i \in 1..n |-> Filler(kind, i)] IN
       k[1] \o SubSeq(r, 1, p) \o k[3][x] \o SubSeq(r, p + 1, n) \o k[4]

Init == /\ kind \in DOMAIN Kinds
        /\ n \in Lengths
        /\ p = -1 /\ x = 0
Next == /\ p = -1 /\ UNCHANGED <<kind, n>>
        /\ p' \in 0..n
        /\ x' \in 1..Len(Kinds[kind][3])
Spec == Init /\ [][Next]_<<kind, n, p, x>>

\* The strict grammar accepts nothing that the one with comments does not, and with the same value.
Sub == p >= 0 => LET s == Parse(Doc, FALSE) c == Parse(Doc, TRUE) IN s[1] = "acc" => c = s
Res(r) == IF r[1] = "acc" THEN r ELSE <<r[1]>>
Emitted == Emit /\ p >= 0 => PrintT(ToJson([op |-> "p", both |-> 1, doc |-> Doc, exp |-> [s |-> Res(Parse(Doc, FALSE)), c |-> Res(Parse(Doc, TRUE))]]))
===============================================================================
