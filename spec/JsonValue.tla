------------------------------ MODULE JsonValue ------------------------------
(***************************************************************************)
(* The abstract state of one meojson value.                                *)
(*                                                                         *)
(* Text is a sequence of bytes (0..255).  A JSON value is a tagged tuple:   *)
(*   <<"z">>            null                                               *)
(*   <<"b", TRUE>>      boolean                                            *)
(*   <<"n", bytes>>     number: its token, kept verbatim                   *)
(*   <<"s", bytes>>     string: its decoded bytes                          *)
(*   <<"a", vals>>      array: a sequence of values                        *)
(*   <<"o", members>>   object: <<key, value>> pairs, strictly sorted by    *)
(*                      key in unsigned byte order                         *)
(* so that TLC equality on this representation is JSON value equality       *)
(* (member order is not observable, number tokens are compared as text).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Null     == <<"z">>
Bool(b)  == <<"b", b>>
Num(t)   == <<"n", t>>
Str(t)   == <<"s", t>>
Arr(es)  == <<"a", es>>
Obj(ms)  == <<"o", ms>>

IsNull(v) == v[1] = "z"
IsBool(v) == v[1] = "b"
IsNum(v)  == v[1] = "n"
IsStr(v)  == v[1] = "s"
IsArr(v)  == v[1] = "a"
IsObj(v)  == v[1] = "o"

EmptyArr == Arr(<<>>)
EmptyObj == Obj(<<>>)

(***************************************************************************)
(* Unsigned lexicographic order on byte sequences.                         *)
(***************************************************************************)
RECURSIVE BytesLtFrom(_, _, _)
BytesLtFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] = b[i] THEN BytesLtFrom(a, b, i + 1)
    ELSE a[i] < b[i]
BytesLt(a, b) == BytesLtFrom(a, b, 1)

(***************************************************************************)
(* Objects as finite maps with a canonical (sorted) member sequence.       *)
(***************************************************************************)
\* Position of key k in members ms, or 0.
KeyPos(ms, k) == SelectInSeq(ms, LAMBDA m : m[1] = k)
HasKey(ms, k) == KeyPos(ms, k) # 0
\* Where a new key k belongs.
InsertPos(ms, k) ==
    LET p == SelectInSeq(ms, LAMBDA m : BytesLt(k, m[1]))
    IN  IF p = 0 THEN Len(ms) + 1 ELSE p
\* Insert or overwrite.
PutMember(ms, k, v) ==
    LET p == KeyPos(ms, k)
    IN  IF p # 0 THEN [ms EXCEPT ![p] = <<k, v>>]
        ELSE InsertAt(ms, InsertPos(ms, k), <<k, v>>)
DelMember(ms, k) ==
    LET p == KeyPos(ms, k) IN IF p = 0 THEN ms ELSE RemoveAt(ms, p)
\* Right-biased merge: members of b win.
MergeMembers(a, b) ==
    FoldLeft(LAMBDA acc, m : PutMember(acc, m[1], m[2]), a, b)
\* First-wins construction from a list of <<key, value>> (initializer lists).
MembersFirstWins(l) ==
    FoldLeft(LAMBDA acc, m : IF HasKey(acc, m[1]) THEN acc
                             ELSE PutMember(acc, m[1], m[2]), <<>>, l)

(***************************************************************************)
(* Well-formedness of the representation (the type invariant).             *)
(***************************************************************************)
IsBytes(t) == \A i \in 1..Len(t) : t[i] \in 0..255
RECURSIVE WellFormed(_)
WellFormed(v) ==
    CASE v[1] = "z" -> Len(v) = 1
      [] v[1] = "b" -> v[2] \in BOOLEAN
      [] v[1] \in {"n", "s"} -> IsBytes(v[2])
      [] v[1] = "a" -> \A i \in 1..Len(v[2]) : WellFormed(v[2][i])
      [] v[1] = "o" -> /\ \A i \in 1..Len(v[2]) : IsBytes(v[2][i][1]) /\ WellFormed(v[2][i][2])
                       /\ \A i \in 1..(Len(v[2]) - 1) : BytesLt(v[2][i][1], v[2][i+1][1])

RECURSIVE NodeCount(_)
NodeCount(v) ==
    CASE v[1] = "a" -> 1 + FoldLeft(LAMBDA n, e : n + NodeCount(e), 0, v[2])
      [] v[1] = "o" -> 1 + FoldLeft(LAMBDA n, m : n + NodeCount(m[2]), 0, v[2])
      [] OTHER -> 1

RECURSIVE Depth(_)
Depth(v) ==
    CASE v[1] = "a" -> 1 + FoldLeft(LAMBDA n, e : IF Depth(e) > n THEN Depth(e) ELSE n, 0, v[2])
      [] v[1] = "o" -> 1 + FoldLeft(LAMBDA n, m : IF Depth(m[2]) > n THEN Depth(m[2]) ELSE n, 0, v[2])
      [] OTHER -> 1

\* The value of a flat list: parts are taken from the end; the stack holds finished values and <<"k", name, value>> members.
Unflat(l) ==
    LET Step(i, st) == LET p == l[i] n == Len(st) IN      \* the stack has the nearest part at its end
            CASE p[1] = "a" -> Append(SubSeq(st, 1, n - p[2]), <<"a", [j \in 1..p[2] |-> st[n + 1 - j]]>>)
              [] p[1] = "o" -> Append(SubSeq(st, 1, n - p[2]), <<"o", [j \in 1..p[2] |-> st[n + 1 - j]]>>)
              [] p[1] = "k" -> Append(SubSeq(st, 1, n - 1), <<p[2], st[n]>>)
              [] OTHER -> Append(st, p)
    IN  FoldLeftDomain(LAMBDA st, i : Step(Len(l) + 1 - i, st), <<>>, l)[1]

\* A value as the flat list of its parts in document order.
RECURSIVE Flat(_)
Flat(v) ==
    CASE v[1] = "a" -> FoldLeft(LAMBDA acc, e : acc \o Flat(e), <<<<"a", Len(v[2])>>>>, v[2])
      [] v[1] = "o" -> FoldLeft(LAMBDA acc, m : acc \o <<<<"k", m[1]>>>> \o Flat(m[2]), <<<<"o", Len(v[2])>>>>, v[2])
      [] OTHER -> <<v>>
==============================================================================
