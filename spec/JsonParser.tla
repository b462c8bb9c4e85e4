------------------------------ MODULE JsonParser ------------------------------
(***************************************************************************)
(* The parser as a push-down machine that consumes one byte per step.      *)
(* `jc` selects JSON-with-comments.  The machine's state is a record:      *)
(*   m   control mode                                                      *)
(*   st  stack of open containers: <<"a", vals>> or <<"o", members>>       *)
(*   ks  keys of the open objects whose member value is pending            *)
(*   bg  index in the document where the current raw run began             *)
(*   pc  the decoded bytes of the string so far, before that run           *)
(*   key whether the string being read is a member name                    *)
(*   cu  code unit being accumulated by a \u escape                        *)
(*   hi  pending high surrogate, or 0                                      *)
(*   cr  mode to return to after a comment                                 *)
(*   lt  remaining bytes of a literal (true/false/null)                    *)
(*   out the completed root value                                          *)
(***************************************************************************)
EXTENDS JsonValue

Init0 == [m |-> "root", st |-> <<>>, ks |-> <<>>, bg |-> 0, pc |-> <<>>, key |-> FALSE,
          cu |-> 0, hi |-> 0, cr |-> "", lt |-> <<>>, lv |-> Null, out |-> Null]

WS      == {32, 9, 13, 10}
DIGITS  == 48..57
HexVal(b) == IF b \in 48..57 THEN b - 48
             ELSE IF b \in 97..102 THEN b - 87
             ELSE IF b \in 65..70 THEN b - 55
             ELSE -1

Quote == 34  Backslash == 92  Comma == 44  Colon == 58  Slash == 47  Star == 42
LBrack == 91 RBrack == 93 LBrace == 123 RBrace == 125 Minus == 45 Plus == 43 Dot == 46 NL == 10

TRUEB  == <<116, 114, 117, 101>>
FALSEB == <<102, 97, 108, 115, 101>>
NULLB  == <<110, 117, 108, 108>>

Rej(s) == [s EXCEPT !.m = "rej"]

(***************************************************************************)
(* UTF-8 encoding of a code point.                                         *)
(***************************************************************************)
Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsHigh(c) == c \in 55296..56319
IsLow(c)  == c \in 56320..57343

SimpleEscape(b) ==
    CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
      [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> -1

(***************************************************************************)
(* A value has just been completed: give it to whatever was waiting.       *)
(***************************************************************************)
Complete(s, v) ==
    IF s.st = <<>> THEN [s EXCEPT !.m = "done", !.out = v]
    ELSE LET n == Len(s.st) IN
         IF s.st[n][1] = "a"
         THEN [s EXCEPT !.m = "after", !.st[n] = <<"a", Append(s.st[n][2], v)>>]
         ELSE LET k == s.ks[Len(s.ks)] IN
              [s EXCEPT !.m = "after",
                        !.st[n] = <<"o", InsertAt(s.st[n][2], InsertPos(s.st[n][2], k), <<k, v>>)>>,
                        !.ks = SubSeq(s.ks, 1, Len(s.ks) - 1)]

Open(s, kind)  == [s EXCEPT !.st = Append(@, <<kind, <<>>>>), !.m = IF kind = "a" THEN "arr1" ELSE "obj1"]
CloseTop(s)    == LET n == Len(s.st) IN
                  Complete([s EXCEPT !.st = SubSeq(@, 1, n - 1)], <<s.st[n][1], s.st[n][2]>>)
TopKind(s)     == s.st[Len(s.st)][1]

BeginString(s, i, isKey) == [s EXCEPT !.m = "str", !.bg = i + 1, !.pc = <<>>, !.key = isKey, !.hi = 0]

EndString(doc, s, i) ==
    LET t == s.pc \o SubSeq(doc, s.bg, i - 1) IN
    IF s.key
    THEN IF HasKey(s.st[Len(s.st)][2], t) THEN Rej(s)     \* duplicate member name
         ELSE [s EXCEPT !.m = "colon", !.ks = Append(@, t), !.pc = <<>>]
    ELSE Complete([s EXCEPT !.pc = <<>>], Str(t))

(***************************************************************************)
(* First byte of a value.                                                  *)
(***************************************************************************)
BeginValue(s, b, i) ==
    CASE b = Quote  -> BeginString(s, i, FALSE)
      [] b = LBrack -> Open(s, "a")
      [] b = LBrace -> Open(s, "o")
      [] b = Minus  -> [s EXCEPT !.m = "n-", !.bg = i]
      [] b = 48     -> [s EXCEPT !.m = "n0", !.bg = i]
      [] b \in 49..57 -> [s EXCEPT !.m = "ni", !.bg = i]
      [] b = 116    -> [s EXCEPT !.m = "lit", !.lt = Tail(TRUEB), !.lv = Bool(TRUE)]
      [] b = 102    -> [s EXCEPT !.m = "lit", !.lt = Tail(FALSEB), !.lv = Bool(FALSE)]
      [] b = 110    -> [s EXCEPT !.m = "lit", !.lt = Tail(NULLB), !.lv = Null]
      [] OTHER      -> Rej(s)

(***************************************************************************)
(* The modes in which insignificant whitespace (and, in JSONC, a comment)   *)
(* may appear.                                                             *)
(***************************************************************************)
Gaps == {"root", "arr1", "arrv", "obj1", "objk", "colon", "objv", "after", "done"}
NumEnds == {"n0", "ni", "nf", "nx"}          \* modes in which a number may end

StepAfter(jc, s, b) ==
    CASE b = Comma -> [s EXCEPT !.m = IF TopKind(s) = "a" THEN "arrv" ELSE "objk"]
      [] b = RBrack /\ TopKind(s) = "a" -> CloseTop(s)
      [] b = RBrace /\ TopKind(s) = "o" -> CloseTop(s)
      [] OTHER -> Rej(s)

StepGap(jc, s, b, i) ==
    IF b \in WS THEN s
    ELSE IF b = Slash THEN (IF jc THEN [s EXCEPT !.m = "cmt", !.cr = s.m] ELSE Rej(s))
    ELSE CASE s.m = "root"  -> IF b = LBrack THEN Open(s, "a") ELSE IF b = LBrace THEN Open(s, "o") ELSE Rej(s)
           [] s.m = "arr1"  -> IF b = RBrack THEN CloseTop(s) ELSE BeginValue(s, b, i)
           [] s.m = "arrv"  -> IF b = RBrack THEN (IF jc THEN CloseTop(s) ELSE Rej(s)) ELSE BeginValue(s, b, i)
           [] s.m = "obj1"  -> IF b = RBrace THEN CloseTop(s)
                               ELSE IF b = Quote THEN BeginString(s, i, TRUE) ELSE Rej(s)
           [] s.m = "objk"  -> IF b = RBrace THEN (IF jc THEN CloseTop(s) ELSE Rej(s))
                               ELSE IF b = Quote THEN BeginString(s, i, TRUE) ELSE Rej(s)
           [] s.m = "colon" -> IF b = Colon THEN [s EXCEPT !.m = "objv"] ELSE Rej(s)
           [] s.m = "objv"  -> BeginValue(s, b, i)
           [] s.m = "after" -> StepAfter(jc, s, b)
           [] s.m = "done"  -> IF b = 0 THEN [s EXCEPT !.m = "eot"] ELSE Rej(s)

StepComment(s, b) ==
    CASE s.m = "cmt"   -> IF b = Slash THEN [s EXCEPT !.m = "line"]
                          ELSE IF b = Star THEN [s EXCEPT !.m = "block"] ELSE Rej(s)
      [] s.m = "line"  -> IF b = NL THEN [s EXCEPT !.m = s.cr] ELSE s
      [] s.m = "block" -> IF b = Star THEN [s EXCEPT !.m = "block*"] ELSE s
      [] s.m = "block*" -> IF b = Slash THEN [s EXCEPT !.m = s.cr]
                           ELSE IF b = Star THEN s ELSE [s EXCEPT !.m = "block"]

StepString(doc, s, b, i) ==
    IF s.hi # 0 /\ b # Backslash THEN Rej(s)              \* a high surrogate must be followed by \uDC00..
    ELSE CASE b = Quote -> EndString(doc, s, i)
           [] b = Backslash -> [s EXCEPT !.m = "esc", !.pc = @ \o SubSeq(doc, s.bg, i - 1)]
           [] b < 32 -> Rej(s)
           [] OTHER -> s

StepEscape(s, b, i) ==
    IF b = 117 THEN [s EXCEPT !.m = "u1", !.cu = 0]
    ELSE IF s.hi # 0 \/ SimpleEscape(b) < 0 THEN Rej(s)
    ELSE [s EXCEPT !.m = "str", !.pc = Append(@, SimpleEscape(b)), !.bg = i + 1]

NextU == [u1 |-> "u2", u2 |-> "u3", u3 |-> "u4"]
StepHex(s, b, i) ==
    IF HexVal(b) < 0 THEN Rej(s)
    ELSE LET c == s.cu * 16 + HexVal(b) IN
         IF s.m # "u4" THEN [s EXCEPT !.m = NextU[s.m], !.cu = c]
         ELSE IF s.hi # 0
              THEN IF IsLow(c)
                   THEN [s EXCEPT !.m = "str", !.bg = i + 1, !.hi = 0,
                                  !.pc = @ \o Utf8(65536 + (s.hi - 55296) * 1024 + (c - 56320))]
                   ELSE Rej(s)
              ELSE IF IsLow(c) THEN Rej(s)
              ELSE IF IsHigh(c) THEN [s EXCEPT !.m = "str", !.bg = i + 1, !.hi = c]
              ELSE [s EXCEPT !.m = "str", !.bg = i + 1, !.pc = @ \o Utf8(c)]

\* The byte after a number both ends the number and is itself consumed.
EndNumber(doc, jc, s, b, i) ==
    StepGap(jc, Complete(s, Num(SubSeq(doc, s.bg, i - 1))), b, i)

StepNumber(doc, jc, s, b, i) ==
    CASE s.m = "n-" -> IF b = 48 THEN [s EXCEPT !.m = "n0"]
                       ELSE IF b \in 49..57 THEN [s EXCEPT !.m = "ni"] ELSE Rej(s)
      [] s.m = "n0" -> IF b \in DIGITS THEN Rej(s)                  \* no leading zeroes
                       ELSE IF b = Dot THEN [s EXCEPT !.m = "n."]
                       ELSE IF b \in {101, 69} THEN [s EXCEPT !.m = "ne"]
                       ELSE EndNumber(doc, jc, s, b, i)
      [] s.m = "ni" -> IF b \in DIGITS THEN s
                       ELSE IF b = Dot THEN [s EXCEPT !.m = "n."]
                       ELSE IF b \in {101, 69} THEN [s EXCEPT !.m = "ne"]
                       ELSE EndNumber(doc, jc, s, b, i)
      [] s.m = "n." -> IF b \in DIGITS THEN [s EXCEPT !.m = "nf"] ELSE Rej(s)
      [] s.m = "nf" -> IF b \in DIGITS THEN s
                       ELSE IF b \in {101, 69} THEN [s EXCEPT !.m = "ne"]
                       ELSE EndNumber(doc, jc, s, b, i)
      [] s.m = "ne" -> IF b \in DIGITS THEN [s EXCEPT !.m = "nx"]
                       ELSE IF b \in {Plus, Minus} THEN [s EXCEPT !.m = "ns"] ELSE Rej(s)
      [] s.m = "ns" -> IF b \in DIGITS THEN [s EXCEPT !.m = "nx"] ELSE Rej(s)
      [] s.m = "nx" -> IF b \in DIGITS THEN s ELSE EndNumber(doc, jc, s, b, i)

StepLiteral(s, b) ==
    IF b # s.lt[1] THEN Rej(s)
    ELSE IF Len(s.lt) = 1 THEN Complete([s EXCEPT !.lt = <<>>], s.lv)
    ELSE [s EXCEPT !.lt = Tail(@)]

\* After the root, a NUL byte ends the input; what follows further NULs is unspecified.
StepEot(s, b) == IF b = 0 THEN s ELSE [s EXCEPT !.m = "unspec"]

(***************************************************************************)
(* One step: consume doc[i].                                               *)
(***************************************************************************)
Step(doc, jc, s, i) ==
    LET b == doc[i] IN
    CASE s.m = "str" -> StepString(doc, s, b, i)
      [] s.m \in Gaps -> StepGap(jc, s, b, i)
      [] s.m \in {"n-", "n0", "ni", "n.", "nf", "ne", "ns", "nx"} -> StepNumber(doc, jc, s, b, i)
      [] s.m = "lit" -> StepLiteral(s, b)
      [] s.m = "esc" -> StepEscape(s, b, i)
      [] s.m \in {"u1", "u2", "u3", "u4"} -> StepHex(s, b, i)
      [] s.m \in {"cmt", "line", "block", "block*"} -> StepComment(s, b)
      [] s.m = "eot" -> StepEot(s, b)
      [] OTHER -> s                               \* "rej", "unspec": absorbing

(***************************************************************************)
(* Verdict at end of input.                                                *)
(***************************************************************************)
Accepts(s) == s.m \in {"done", "eot"} \/ (s.m = "line" /\ s.cr = "done")
Verdict(s) == IF s.m = "unspec" THEN "unspec" ELSE IF Accepts(s) THEN "acc" ELSE "rej"

Run(doc, jc) == FoldLeftDomain(LAMBDA s, i : IF s.m = "rej" THEN s ELSE Step(doc, jc, s, i), Init0, doc)

\* <<verdict, value>>: the complete meaning of parsing `doc`.
Parse(doc, jc) == LET s == Run(doc, jc) IN <<Verdict(s), IF Accepts(s) THEN s.out ELSE Null>>
===============================================================================
