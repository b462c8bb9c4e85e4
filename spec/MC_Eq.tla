--------------------------------- MODULE MC_Eq ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of pairs of small values, and of every value with  *)
(* each of its neighbours (values that differ from it in one place).          *)
(***************************************************************************)
EXTENDS JsonEq, JsonText, TLC, Json

CONSTANTS MaxNodes, PairNodes

Leaves == { Null, Bool(TRUE), Bool(FALSE), Num(<<48>>), Num(<<45, 48>>), Num(<<49>>), Num(<<49, 46, 48>>), Num(<<49, 101, 48>>),
            Str(<<>>), Str(<<48>>), Str(<<49>>), Str(<<116, 114, 117, 101>>), Str(<<110, 117, 108, 108>>), Str(<<0>>), EmptyArr, EmptyObj }
Names  == { <<>>, <<97>>, <<97, 0>>, <<65>> }
Few    == { Null, Num(<<48>>), Str(<<48>>), EmptyArr, EmptyObj }

RECURSIVE Grown(_, _)
Grown(v, L) ==
    CASE v[1] = "a" -> { Arr(Append(v[2], x)) : x \in L } \cup UNION { { Arr([v[2] EXCEPT ![i] = y]) : y \in Grown(v[2][i], L) } : i \in 1..Len(v[2]) }
      [] v[1] = "o" -> { Obj(PutMember(v[2], k, x)) : k \in { n \in Names : ~HasKey(v[2], n) }, x \in L }
                       \cup UNION { { Obj([v[2] EXCEPT ![i] = <<v[2][i][1], y>>]) : y \in Grown(v[2][i][2], L) } : i \in 1..Len(v[2]) }
      [] OTHER -> {}

\* One place changed: a leaf replaced, an element dropped, doubled or exchanged with its successor, a member dropped or renamed.
RECURSIVE Near(_)
Near(v) ==
    (IF v \in Leaves \/ Len(v[2]) = 1 THEN Leaves ELSE {}) \cup
    (CASE v[1] = "a" -> LET s == v[2] IN
             { Arr(RemoveAt(s, i)) : i \in 1..Len(s) } \cup { Arr(InsertAt(s, i, s[i])) : i \in 1..Len(s) }
             \cup { Arr([s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]) : i \in 1..(Len(s) - 1) }
             \cup { Arr(s \o <<Null>>), Str(<<>>) }
             \cup UNION { { Arr([s EXCEPT ![i] = y]) : y \in Near(s[i]) } : i \in 1..Len(s) }
       [] v[1] = "o" -> LET s == v[2] IN
             { Obj(RemoveAt(s, i)) : i \in 1..Len(s) }
             \cup UNION { { Obj(PutMember(RemoveAt(s, i), n, s[i][2])) : n \in { m \in Names : ~HasKey(s, m) } } : i \in 1..Len(s) }
             \cup { Obj([s EXCEPT ![i] = <<s[i][1], s[i + 1][2]>>, ![i + 1] = <<s[i + 1][1], s[i][2]>>]) : i \in 1..(Len(s) - 1) }
             \cup UNION { { Obj([s EXCEPT ![i] = <<s[i][1], y>>]) : y \in Near(s[i][2]) } : i \in 1..Len(s) }
       [] OTHER -> {})

RECURSIVE Upto(_)
Upto(n) == IF n = 1 THEN Leaves ELSE LET p == Upto(n - 1) IN p \cup UNION { Grown(v, Leaves) : v \in { x \in p : NodeCount(x) = n - 1 } }
Base == Upto(PairNodes)

VARIABLE v
Init == v \in Base
Next == NodeCount(v) < MaxNodes /\ v' \in Grown(v, IF NodeCount(v) < PairNodes THEN Leaves ELSE Few)
Spec == Init /\ [][Next]_v

Others == (IF NodeCount(v) <= PairNodes THEN Base ELSE {}) \cup Near(v) \cup {v}

Reflexive == ValEq(v, v)
Symmetric == \A w \in Others : ValEq(v, w) = ValEq(w, v)
\* The representation is canonical: equal exactly when it is the same, and then the texts are the same.
Canonical == \A w \in Others : ValEq(v, w) = (v = w) /\ (ValEq(v, w) = (Dump(v) = Dump(w)))
Transitive == NodeCount(v) = 1 => \A x \in Near(v) : \A y \in Near(x) : (ValEq(v, x) /\ ValEq(x, y)) => ValEq(v, y)
Emitted == LET ws == SetToSeq(Others) IN
           PrintT(ToJson([op |-> "eq", v |-> v, ws |-> ws, exp |-> [k \in 1..Len(ws) |-> ValEq(v, ws[k])]]))
===============================================================================
