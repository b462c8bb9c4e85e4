------------------------------- MODULE JsonText -------------------------------
(***************************************************************************)
(* The serialised forms of a value: the compact text and the pretty text.  *)
(* Text is a sequence of bytes, as in JsonValue.                            *)
(***************************************************************************)
EXTENDS JsonValue

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n           \* lower case

EscapeByte(b) ==
    CASE b = 34 -> <<92, 34>>   [] b = 92 -> <<92, 92>>
      [] b = 8  -> <<92, 98>>   [] b = 12 -> <<92, 102>>
      [] b = 10 -> <<92, 110>>  [] b = 13 -> <<92, 114>>
      [] b = 9  -> <<92, 116>>
      [] b < 32 /\ b \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, HexDigit(b \div 16), HexDigit(b % 16)>>
      [] OTHER  -> <<b>>

NeedsEscape(b) == b < 32 \/ b = 34 \/ b = 92

\* The position after the last escaped byte is carried along, so that runs of
\* plain bytes are copied as a whole.
Escaped(t) ==
    LET r == FoldLeftDomain(LAMBDA acc, i :
                 IF NeedsEscape(t[i])
                 THEN <<acc[1] \o SubSeq(t, acc[2], i - 1) \o EscapeByte(t[i]), i + 1>>
                 ELSE acc, <<<<>>, 1>>, t)
    IN  r[1] \o SubSeq(t, r[2], Len(t))

Quoted(t) == <<34>> \o Escaped(t) \o <<34>>

\* Concatenation of a sequence of byte sequences with a separator.
JoinWith(sep, parts) ==
    FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN parts[1] ELSE acc \o sep \o parts[i], <<>>, parts)

LiteralText(v) == IF v[1] = "z" THEN <<110, 117, 108, 108>>
                  ELSE IF v[2] THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>

RECURSIVE Dump(_)
Dump(v) ==
    CASE v[1] \in {"z", "b"} -> LiteralText(v)
      [] v[1] = "n" -> v[2]
      [] v[1] = "s" -> Quoted(v[2])
      [] v[1] = "a" -> <<91>> \o JoinWith(<<44>>, [i \in 1..Len(v[2]) |-> Dump(v[2][i])]) \o <<93>>
      [] v[1] = "o" -> <<123>> \o JoinWith(<<44>>, [i \in 1..Len(v[2]) |->
                           Quoted(v[2][i][1]) \o <<58>> \o Dump(v[2][i][2])]) \o <<125>>

Spaces(n) == [i \in 1..n |-> 32]

RECURSIVE FormatAt(_, _, _)
FormatAt(v, w, d) ==
    LET in == Spaces(w * (d + 1)) IN
    CASE v[1] = "a" ->
           <<91, 10>>
           \o (IF v[2] = <<>> THEN <<>>
               ELSE JoinWith(<<44, 10>>, [i \in 1..Len(v[2]) |-> in \o FormatAt(v[2][i], w, d + 1)]) \o <<10>>)
           \o Spaces(w * d) \o <<93>>
      [] v[1] = "o" ->
           <<123, 10>>
           \o (IF v[2] = <<>> THEN <<>>
               ELSE JoinWith(<<44, 10>>, [i \in 1..Len(v[2]) |->
                        in \o Quoted(v[2][i][1]) \o <<58, 32>> \o FormatAt(v[2][i][2], w, d + 1)]) \o <<10>>)
           \o Spaces(w * d) \o <<125>>
      [] OTHER -> Dump(v)
Format(v, w) == FormatAt(v, w, 0)
===============================================================================
