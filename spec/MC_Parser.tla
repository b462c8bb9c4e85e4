------------------------------ MODULE MC_Parser ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the parser machine.                           *)
(*                                                                         *)
(* States are identified by their control part only (VIEW), so TLC visits  *)
(* every control state of the machine up to MaxDepth open containers once, *)
(* each with the shortest document that leads to it, and in each takes     *)
(* every one of the 256 bytes.  Each such transition is emitted as two      *)
(* test documents for the implementation: the prefix up to and including   *)
(* the byte, and that prefix completed to the end of the document (by the   *)
(* specification's own choice of bytes).                                    *)
(***************************************************************************)
EXTENDS JsonParser, TLC, Json, IOUtils

CONSTANTS MaxDepth, JC, Emit

VARIABLES s, doc
vars == <<s, doc>>

\* The next byte on a way to a complete document, or -1 when the machine is done.
Closer(t) == IF TopKind(t) = "a" THEN RBrack ELSE RBrace
NextByte(t) ==
    CASE t.m = "root" -> LBrack [] t.m = "arr1" -> RBrack [] t.m = "arrv" -> 55
      [] t.m = "obj1" -> RBrace [] t.m = "objk" -> Quote  [] t.m = "colon" -> Colon
      [] t.m = "objv" -> 55     [] t.m = "after" -> Closer(t)
      [] t.m \in {"n-", "n.", "ne", "ns"} -> 55
      [] t.m \in NumEnds -> Closer(t)
      [] t.m = "lit" -> t.lt[1]
      [] t.m = "str" -> IF t.hi # 0 THEN Backslash ELSE Quote
      [] t.m = "esc" -> IF t.hi # 0 THEN 117 ELSE 110
      [] t.m = "u1" -> IF t.hi # 0 THEN 68 ELSE 48
      [] t.m = "u2" -> IF t.hi # 0 THEN 67 ELSE 48
      [] t.m \in {"u3", "u4"} -> 52
      [] t.m = "cmt" -> Slash [] t.m = "line" -> NL [] t.m = "block" -> Star [] t.m = "block*" -> Slash
      [] OTHER -> -1                                       \* done, eot, rej, unspec

\* Nested comments in keys that repeat (e.g. {"":7,"":7}) cannot be completed greedily; the
\* verdict is computed for whatever completion results, so that does not matter.
RECURSIVE Completed(_, _, _)
Completed(d, t, n) ==
    LET b == NextByte(t) IN
    IF b < 0 \/ n = 0 THEN d
    ELSE LET d2 == Append(d, b) IN Completed(d2, Step(d2, JC, t, Len(d2)), n - 1)

\* Control part of a state: everything the next steps' control depends on.
Ctl(t) == <<t.m, [i \in 1..Len(t.st) |-> <<t.st[i][1], IF t.st[i][2] = <<>> THEN 0 ELSE 1>>],
            IF t.m \in {"str", "esc", "u1", "u2", "u3", "u4"} THEN t.key ELSE FALSE,
            t.hi # 0, IF t.m \in {"cmt", "line", "block", "block*"} THEN t.cr ELSE "",
            t.lt, IF t.m \in {"u2", "u3", "u4"} THEN IF t.m = "u2" THEN t.cu = 13 ELSE t.cu \div (IF t.m = "u3" THEN 1 ELSE 16) ELSE 0>>
View == Ctl(s)

Vec(d) == LET r == Parse(d, JC) IN [op |-> "p", jc |-> JC, doc |-> d, exp |-> IF r[1] = "acc" THEN <<"acc", r[2]>> ELSE <<r[1]>>]
Out(d) == IF Emit THEN PrintT(ToJson(Vec(d))) ELSE TRUE

Init == s = Init0 /\ doc = <<>> /\ Out(<<>>)

\* The \u escapes are explored through these hexadecimal digits only (all code units are
\* replayed separately); every other byte is tried in every state.
Next ==
    \E b \in 0..255 :
      LET d == Append(doc, b)
          t == Step(d, JC, s, Len(d))
          cd == Completed(d, t, 60)
      IN  /\ s.m \notin {"rej", "unspec"}
          /\ Len(s.st) <= MaxDepth
          /\ (s.m \in {"u1", "u2", "u3", "u4"} => b \in {47, 48, 52, 57, 58, 64, 65, 67, 68, 70, 71, 96, 97, 99, 100, 102, 103, 34, 92})
          /\ s' = t /\ doc' = d
          /\ Out(d) /\ (cd # d => Out(cd))

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants of the machine itself.                                        *)
(***************************************************************************)
TypeOK ==
    /\ s.hi = 0 \/ IsHigh(s.hi)
    /\ s.m \in {"done", "eot"} => s.st = <<>> /\ WellFormed(s.out) /\ s.out[1] \in {"a", "o"}
    /\ Len(s.ks) <= Len(s.st)
    /\ \A i \in 1..Len(s.st) : WellFormed(<<s.st[i][1], s.st[i][2]>>)
\* Every live state can be completed to an accepted document (no dead ends), unless the
\* greedy completion repeats a member name or a \u escape has become a lone low surrogate.
NoDeadEnd ==
    (s.m \notin {"rej", "unspec", "u2", "u3", "u4"} /\ ~(\E i \in 1..Len(s.st) : s.st[i][1] = "o"))
        => Parse(Completed(doc, s, 60), JC)[1] = "acc"
===============================================================================
