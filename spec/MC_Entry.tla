------------------------------- MODULE MC_Entry -------------------------------
(***************************************************************************)
(* The ways into the parser: memory, C strings, literals, streams and files.  *)
(*                                                                         *)
(* A content is a byte order mark (or a part of one, or none) and tokens.      *)
(* A stream over a content has a position and an end-of-file flag, which a      *)
(* history of reads, seeks and parses changes; what a parse gives does not      *)
(* depend on them.                                                          *)
(***************************************************************************)
EXTENDS JsonParser, TLC, Json

CONSTANTS MaxToks, MaxActs, HistToks, Emit

VARIABLES bom, toks,        \* the content
          pos, eof, hist    \* the stream; pos = -1: left open by a parse
vars == <<bom, toks, pos, eof, hist>>

Boms == { <<>>, <<239>>, <<239, 187>>, <<239, 187, 191>>, <<239, 187, 191, 239, 187, 191>>, <<239, 187, 190>>, <<254, 255>> }
Toks == { <<91>>, <<93>>, <<123>>, <<125>>, <<34, 97, 34>>, <<58>>, <<49>>, <<44>>, <<47, 47>>, <<10>>, <<47, 42>>, <<42, 47>>, <<0>>, <<32>>, <<13, 10>>,
          <<91, 49, 93>>, <<123, 34, 97, 34, 58, 91, 93, 125>>, <<91, 49, 44, 93>>, <<239, 187, 191>>, <<26>> }
Content == bom \o FoldLeft(LAMBDA a, t : a \o t, <<>>, toks)

Mark == <<239, 187, 191>>
Marked(d) == Len(d) >= 3 /\ SubSeq(d, 1, 3) = Mark
Unmarked(d) == SubSeq(d, 4, Len(d))
UpToNul(d) == LET z == { i \in 1..Len(d) : d[i] = 0 } IN IF z = {} THEN d ELSE SubSeq(d, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

(***************************************************************************)
(* What each way in gives.                                                   *)
(***************************************************************************)
Res(r) == IF r[1] = "acc" THEN r ELSE <<r[1]>>
FromStream(d, checkBom, jc) == Res(Parse(IF checkBom /\ Marked(d) THEN Unmarked(d) ELSE d, jc))
FromCString(d, jc) == Res(Parse(UpToNul(d), jc))
Literal(d, kind) == LET r == Parse(d, FALSE) IN
    IF r[1] = "unspec" THEN <<"unspec">>
    ELSE CASE kind = "v" -> IF r[1] = "acc" THEN r[2] ELSE Null
           [] kind = "a" -> IF r[1] = "acc" /\ r[2][1] = "a" THEN r[2] ELSE EmptyArr
           [] kind = "o" -> IF r[1] = "acc" /\ r[2][1] = "o" THEN r[2] ELSE EmptyObj

B2(f(_, _)) == <<f(FALSE, FALSE), f(FALSE, TRUE), f(TRUE, FALSE), f(TRUE, TRUE)>>
Entries(d) == [m |-> <<Res(Parse(d, FALSE)), Res(Parse(d, TRUE))>>, s |-> B2(LAMBDA x, y : FromStream(d, x, y)), z |-> <<FromCString(d, FALSE), FromCString(d, TRUE)>>,
               l |-> <<Literal(d, "v"), Literal(d, "a"), Literal(d, "o")>>]

(***************************************************************************)
(* The stream.                                                              *)
(***************************************************************************)
Parses(x, y) == /\ hist' = Append(hist, <<<<"p", x, y>>, FromStream(Content, x, y)>>)
                /\ pos' = -1 /\ eof' = FALSE
Seeks(k) == /\ hist' = Append(hist, <<<<"s", k>>, <<"ok">>>>)
            /\ pos' = k /\ eof' = FALSE
Reads(n) == /\ pos >= 0 /\ ~eof /\ pos + n <= Len(Content)
            /\ hist' = Append(hist, <<<<"r", n>>, <<"s", SubSeq(Content, pos + 1, pos + n)>>>>)
            /\ pos' = pos + n /\ eof' = eof
Peeks == /\ pos = Len(Content)                       \* looks for more, and finds the end
         /\ hist' = Append(hist, <<<<"e">>, <<"ok">>>>)
         /\ pos' = pos /\ eof' = TRUE

Init == bom \in Boms /\ toks = <<>> /\ pos = 0 /\ eof = FALSE /\ hist = <<>>
Grow == /\ hist = <<>> /\ Len(toks) < MaxToks
        /\ \E t \in Toks : toks' = Append(toks, t)
        /\ UNCHANGED <<bom, pos, eof, hist>>
Act == /\ Len(toks) <= HistToks /\ Len(hist) < MaxActs
       /\ UNCHANGED <<bom, toks>>
       /\ \/ \E x \in BOOLEAN, y \in BOOLEAN : Parses(x, y)
          \/ \E k \in {0, 1, Len(Content) \div 2, Len(Content)} : k <= Len(Content) /\ Seeks(k)
          \/ \E n \in {1, 3} : Reads(n)
          \/ Peeks
Next == Grow \/ Act
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Checked                                                                  *)
(***************************************************************************)
\* Every parse of a history gives what the first parse would have given.
HistoryFree == \A i \in 1..Len(hist) : hist[i][1][1] = "p" => hist[i][2] = FromStream(Content, hist[i][1][2], hist[i][1][3])
\* A mark is not JSON: without the option, marked content is rejected; with it, one mark is skipped and no more.
Marks == (hist = <<>> /\ Marked(Content)) =>
             /\ FromStream(Content, FALSE, TRUE) = <<"rej">>
             /\ \A y \in BOOLEAN : FromStream(Content, TRUE, y) = Res(Parse(Unmarked(Content), y))
             /\ \A y \in BOOLEAN : Marked(Unmarked(Content)) => FromStream(Content, TRUE, y) = <<"rej">>
\* Where there is no NUL, a C string is the same text.
CStrings == (hist = <<>> /\ \A i \in 1..Len(Content) : Content[i] # 0) => \A y \in BOOLEAN : FromCString(Content, y) = Res(Parse(Content, y))

IsParse(e) == e[1][1] = "p"
Emitted ==
    Emit => IF hist = <<>> THEN PrintT(ToJson([op |-> "en", doc |-> Content, exp |-> Entries(Content)]))
            ELSE (Len(hist) = MaxActs /\ IsParse(hist[Len(hist)])) =>
                    PrintT(ToJson([op |-> "eh", doc |-> Content, acts |-> [i \in 1..Len(hist) |-> hist[i][1]], exp |-> [i \in 1..Len(hist) |-> hist[i][2]]]))
===============================================================================
