------------------------------- MODULE MC_Store -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the store machine.                             *)
(*                                                                         *)
(* Starting from stores of empty objects, a step is either the growth of     *)
(* some part (the environment preparing data) or a call of the family that    *)
(* the property Fam is about.  Stores have at most MaxNodes parts in all.      *)
(* Every call in every reachable store is checked against what the property   *)
(* demands of it (StepOK), and emitted with the outcome that the               *)
(* implementation must show.                                                  *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils

CONSTANTS Fam, MaxNodes, Rich

VARIABLE st

One == Num(<<49>>)
X   == Str(<<120>>)
KA  == <<97>>
KB  == <<98>>
Long(n) == [i \in 1..n |-> 97 + (i % 26)]
\* C26 looks at each value alone: scalars around the length at which descriptions are cut
Described == {Bool(TRUE), Bool(FALSE), Str(<<97, 34, 10>>), Num(<<45, 49, 46, 53, 101, 51>>)} \cup { Str(Long(n)) : n \in {97, 98, 99, 100, 101, 110, 300} }
             \cup { Num([i \in 1..n |-> 49]) : n \in {99, 100, 101, 102} } \cup { Str(Long(n) \o <<195, 169, 34, 92>>) : n \in 93..100 }
Leaves == IF Fam = "C26" THEN Described \cup {Null, Str(<<>>), EmptyArr, EmptyObj} ELSE IF Rich THEN {Null, Str(<<>>), One, X, EmptyArr, EmptyObj} ELSE {Null, One, EmptyArr, EmptyObj}
Names  == {KA, KB}
Lits   == IF Rich THEN {Null, X, Arr(<<One>>), Obj(<<<<KB, One>>>>)} ELSE {One, Obj(<<<<KA, X>>>>)}

Size(s) == FoldLeft(LAMBDA n, x : n + NodeCount(x[2]), 0, s)

\* Stores by what they consist of.
Kinds == CASE Fam \in {"C09", "C10"} -> { <<"V", "V">>, <<"V", "A">>, <<"V", "O">>, <<"A", "A">>, <<"O", "O">> }
           [] Fam = "C11" -> { <<"A", "A">>, <<"V", "A">> }
           [] Fam = "C12" -> { <<"O", "O">>, <<"V", "O">> }
           [] Fam = "C13" -> { <<"V">>, <<"V", "A">>, <<"V", "O">> }
           [] Fam = "C14" -> { <<"V">>, <<"A">>, <<"O">> }
           [] Fam = "C27" -> { <<"V", "A">>, <<"V", "O">> }
           [] Fam = "C26" -> { <<"V">>, <<"A">>, <<"O">> }
Zero(k) == CASE k = "V" -> Null [] k = "A" -> EmptyArr [] k = "O" -> EmptyObj
Init == st \in { [i \in 1..Len(k) |-> <<k[i], Zero(k[i])>>] : k \in Kinds }

(***************************************************************************)
(* The handles of a store.                                                   *)
(***************************************************************************)
RECURSIVE Paths(_)
Paths(v) == { <<>> } \cup
    (CASE v[1] = "a" -> UNION { { <<<<"i", i - 1>>>> \o p : p \in Paths(v[2][i]) } : i \in 1..Len(v[2]) }
       [] v[1] = "o" -> UNION { { <<<<"k", v[2][i][1]>>>> \o p : p \in Paths(v[2][i][2]) } : i \in 1..Len(v[2]) }
       [] OTHER -> {})
Hs == UNION { { <<k, p>> : p \in Paths(st[k][2]) } : k \in 1..Len(st) }
Vs == { h \in Hs : IsV(st, h) }
As_ == { h \in Hs : IsA(st, h) }
Os == { h \in Hs : IsO(st, h) }

Scalars == {"boolean", "string", "string_view", "op_string", "integer", "op_int", "long_long", "double", "null", "monostate"}
CM == {"c", "m"}
KeyModes == {"l", "r", "p"}
Poss == 0..3
\* Positions outside of every array here; from a million on, the harness knows which large number each of them stands for.
Far == { 256, 257, 65536, 1000000, 2000001, 3000000, 4000000, 5000000 }
Steps_ == { <<"k", KA>>, <<"k", KB>>, <<"i", 0>>, <<"i", 1>> }
FarSteps == { <<"i", p>> : p \in Far }
Chains == { <<e>> : e \in Steps_ } \cup (Steps_ \X Steps_) \cup (IF Rich THEN Steps_ \X Steps_ \X Steps_ ELSE {<<e, <<"i", 0>>, f>> : e \in Steps_, f \in Steps_})
\* requested types with a default of that type
Wanted == { <<"v", Arr(<<X>>)>>, <<"i", Num(<<45, 55>>)>>, <<"s", Str(<<100>>)>>, <<"b", Bool(TRUE)>>, <<"a", Arr(<<Null, X>>)>>,
            <<"o", Obj(<<<<KB, Null>>>>)>>, <<"vi", Arr(<<Num(<<55>>)>>)>>, <<"l", Num(<<55>>)>> }
Slots(k) == { i \in 1..Len(st) : st[i][1] = k }
ArrLits == { <<>>, <<X>>, <<One, EmptyArr>>, <<Null, X, EmptyObj>>, <<One, X, One, Null>>, <<EmptyArr>> }
ObjLits == { <<>>, <<<<KB, One>>>>, <<<<KB, One>>, <<KA, X>>>>, <<<<KA, One>>, <<KA, X>>>>, <<<<KB, One>>, <<KA, X>>, <<KB, EmptyArr>>>>,
             <<<<KB, EmptyObj>>, <<<<>>, X>>, <<KA, Null>>, <<KA, X>>>> }
Calls(n) ==
    CASE n \in {"v.copy", "v.move", "v.swap"} -> { <<n, h, g>> : h \in Vs, g \in Vs }
      [] n = "v.lit" -> { <<n, h, x>> : h \in Vs, x \in Lits }
      [] n \in {"v.clear", "v.asA", "v.asO", "v.casA", "v.casO", "v.toA", "v.toO", "v.use"} -> { <<n, h>> : h \in Vs }
      [] n = "v.scalar" -> { <<n, h, t>> : h \in Vs, t \in Scalars }
      [] n = "v.fromA" -> { <<n, h, g, m>> : h \in Vs, g \in As_, m \in CM }
      [] n = "v.fromO" -> { <<n, h, g, m>> : h \in Vs, g \in Os, m \in CM }
      [] n = "v.kidx" -> { <<n, h, k, m>> : h \in Vs, k \in Names, m \in KeyModes }
      [] n = "v.kset" -> { <<n, h, k, x, m>> : h \in Vs, k \in Names, x \in Lits, m \in {"l", "r"} }
      [] n \in {"v.kcopy", "v.kmove"} -> { <<n, h, k, g, "l">> : h \in Vs, k \in Names, g \in Vs }
      [] n \in {"v.iidx", "v.ciidx"} -> { <<n, h, i>> : h \in Vs, i \in Poss }
      [] n \in {"v.ati", "v.deli"} -> { <<n, h, i>> : h \in Vs, i \in Poss \cup Far }
      [] n = "v.iset" -> { <<n, h, i, x>> : h \in Vs, i \in Poss, x \in Lits }
      [] n = "v.icopy" -> { <<n, h, i, g>> : h \in Vs, i \in 0..2, g \in Vs }
      [] n \in {"v.at", "v.delk"} -> { <<n, h, k>> : h \in Vs, k \in Names }
      [] n = "v.empA" -> { <<n, h, x>> : h \in Vs, x \in Lits }
      [] n = "v.empAc" -> { <<n, h, g>> : h \in Vs, g \in Vs }
      [] n = "v.empO" -> { <<n, h, k, x, m>> : h \in Vs, k \in Names, x \in Lits, m \in {"l", "r"} }
      [] n = "v.empOc" -> { <<n, h, k, g, "l">> : h \in Vs, k \in Names, g \in Vs }
      [] n = "v.plus" -> { <<n, h, g, m>> : h \in Vs, g \in As_, m \in Modes }
      [] n = "v.or" -> { <<n, h, g, m>> : h \in Vs, g \in Os, m \in Modes }
      [] n = "v.pluseq" -> { <<n, h, g, m>> : h \in Vs, g \in As_, m \in CM }
      [] n = "v.oreq" -> { <<n, h, g, m>> : h \in Vs, g \in Os, m \in CM }
      [] n = "a.push" -> { <<n, h, x, m>> : h \in As_, x \in Lits, m \in {"e", "p"} }
      [] n \in {"a.pushc", "a.pushm"} -> { <<n, h, g, m>> : h \in As_, g \in Vs, m \in {"e", "p"} }
      [] n = "a.pushA" -> { <<n, h, g, m>> : h \in As_, g \in As_, m \in CM }
      [] n = "a.pushO" -> { <<n, h, g, m>> : h \in As_, g \in Os, m \in CM }
      [] n \in {"a.delit", "a.idx"} -> { <<n, h, i>> : h \in As_, i \in Poss }
      [] n \in {"a.deli", "a.at"} -> { <<n, h, i>> : h \in As_, i \in Poss \cup Far }
      [] n \in {"a.clear", "a.info"} -> { <<n, h>> : h \in As_ }
      [] n = "a.iset" -> { <<n, h, i, x>> : h \in As_, i \in Poss, x \in Lits }
      [] n = "a.itset" -> { <<n, h, i, x, m>> : h \in As_, i \in Poss, x \in Lits, m \in {"f", "r"} }
      [] n = "a.icopy" -> { <<n, h, i, g>> : h \in As_, i \in Poss, g \in Vs }
      [] n = "a.plus" -> { <<n, h, g, m>> : h \in As_, g \in As_, m \in Modes }
      [] n = "a.pluseq" -> { <<n, h, g, m>> : h \in As_, g \in As_, m \in CM }
      [] n \in {"a.copy", "a.move", "a.swap"} -> { <<n, h, g>> : h \in As_, g \in As_ }
      [] n = "o.emp" -> { <<n, h, k, x, m>> : h \in Os, k \in Names, x \in Lits, m \in {"l", "r", "i"} }
      [] n \in {"o.empc", "o.empm"} -> { <<n, h, k, g, m>> : h \in Os, k \in Names, g \in Vs, m \in {"l", "i"} }
      [] n = "o.kidx" -> { <<n, h, k, m>> : h \in Os, k \in Names, m \in {"l", "r"} }
      [] n = "o.kset" -> { <<n, h, k, x, m>> : h \in Os, k \in Names, x \in Lits, m \in {"l", "r"} }
      [] n \in {"o.kcopy", "o.kmove"} -> { <<n, h, k, g, m>> : h \in Os, k \in Names, g \in Vs, m \in {"l", "r"} }
      [] n \in {"o.delk", "o.delit", "o.at"} -> { <<n, h, k>> : h \in Os, k \in Names }
      [] n \in {"o.clear", "o.info"} -> { <<n, h>> : h \in Os }
      [] n = "o.itset" -> { <<n, h, k, x>> : h \in Os, k \in Names, x \in Lits }
      [] n = "o.or" -> { <<n, h, g, m>> : h \in Os, g \in Os, m \in Modes }
      [] n = "o.oreq" -> { <<n, h, g, m>> : h \in Os, g \in Os, m \in CM }
      [] n \in {"o.copy", "o.move", "o.swap"} -> { <<n, h, g>> : h \in Os, g \in Os }
      [] n \in {"n.copyV", "n.moveV"} -> { <<n, k, g>> : k \in Slots("V"), g \in Vs }
      [] n \in {"n.copyA", "n.moveA"} -> { <<n, k, g>> : k \in Slots("A"), g \in As_ }
      [] n \in {"n.copyO", "n.moveO"} -> { <<n, k, g>> : k \in Slots("O"), g \in Os }
      [] n = "n.fromA" -> { <<n, k, g, m>> : k \in Slots("V"), g \in As_, m \in CM }
      [] n = "n.fromO" -> { <<n, k, g, m>> : k \in Slots("V"), g \in Os, m \in CM }
      [] n = "n.sized" -> { <<n, k, i>> : k \in Slots("A"), i \in 0..3 }
      [] n = "n.listA" -> { <<n, k, l>> : k \in Slots("A"), l \in { x \in ArrLits : Len(x) # 1 \/ x[1][1] # "a" } }
      [] n = "n.seqA" -> { <<n, k, l, m>> : k \in Slots("A"), l \in ArrLits, m \in {"vc", "vm", "lc", "dm"} }
      [] n = "n.listO" -> { <<n, k, l>> : k \in Slots("O"), l \in ObjLits }
      [] n = "n.listV" -> { <<n, k, l>> : k \in Slots("V"), l \in { x \in ObjLits : x # <<>> } }
      [] n = "n.mapO" -> { <<n, k, l, m>> : k \in Slots("O"), l \in ObjLits, m \in {"mc", "mm", "uc", "um"} }
      [] n = "l.get" -> { <<n, h, <<e>>, w[1], w[2]>> : h \in Hs, e \in Steps_ \cup FarSteps, w \in Wanted }
                        \cup { <<n, h, c, w[1], w[2]>> : h \in Hs, c \in Chains, w \in { x \in Wanted : Rich \/ x[1] \in {"v", "i"} } }
      [] n = "l.find" -> { <<n, h, e, t>> : h \in Hs, e \in Steps_ \cup FarSteps, t \in {"v", "b", "i", "l", "u", "s", "a", "o", "vi"} }
      [] n = "k.kind" -> { <<n, h>> : h \in Vs }
      [] n \in {"l.fv", "l.has"} -> { <<n, h, e>> : h \in Hs, e \in Steps_ \cup FarSteps }
\* Lookups of an array take positions, those of an object names, those of a value both.
Suits(a) == Group(a) = "l" =>
    LET e == IF a[1] = "l.get" THEN a[3][1] ELSE a[3] k == st[SlotOf(a[2])][1] IN
    PathOf(a[2]) # <<>> \/ k = "V" \/ (k = "A" <=> e[1] = "i")
Family == { n \in CopyOps \cup MoveOps \cup ArrayOps \cup ObjectOps \cup AccessOps \cup LookupOps \cup KindOps : Owned(Fam, n) }

(***************************************************************************)
(* What the properties demand of a call, stated on the stores before and     *)
(* after it, independently of how Apply computes them.                       *)
(***************************************************************************)
Slice(s, n) == SubSeq(s, 1, n)
Unspec(v) == v[1] = "?"
RECURSIVE Hollow(_)
Hollow(v) == CASE v[1] = "?" -> TRUE
               [] v[1] = "a" -> \E i \in 1..Len(v[2]) : Hollow(v[2][i])
               [] v[1] = "o" -> \E i \in 1..Len(v[2]) : Hollow(v[2][i][2])
               [] OTHER -> FALSE
ReadOnly == {"v.casA", "v.casO", "v.toA", "v.toO", "v.scalar", "v.iidx", "v.ciidx", "v.at", "v.ati", "v.use", "a.at", "a.idx", "a.info", "o.at", "o.info"} \cup LookupOps \cup KindOps
CopyLike == {"v.copy", "a.copy", "o.copy"}
MoveLike == {"v.move", "a.move", "o.move"}
Moving == MoveLike \cup {"n.moveV", "n.moveA", "n.moveO", "v.kmove", "o.kmove", "o.empm", "a.pushm"}
Moded  == {"v.fromA", "v.fromO", "n.fromA", "n.fromO", "a.pushA", "a.pushO", "v.plus", "a.plus", "v.or", "o.or", "v.pluseq", "a.pluseq", "v.oreq", "o.oreq"}
StepOK(a, nst, r) ==
    LET n == a[1] IN
    \* C13: a call that throws changes nothing; const access never changes anything (C14 as well)
    /\ (r[1] \in {"jexc", "exc"} \/ n \in ReadOnly) => nst = st
    \* C10: no other value changes
    /\ \A k \in (1..Len(st)) \ Touched(a) : nst[k] = st[k]
    \* C09: the target is equal to what the source was; the source is unchanged unless they overlap
    /\ n \in CopyLike => /\ At(nst, a[2]) = At(st, a[3])
                         /\ ~Overlap(a[2], a[3]) => At(nst, a[3]) = At(st, a[3])
    /\ n \in {"n.copyV", "n.copyA", "n.copyO"} =>  /\ nst[a[2]][2] = At(st, a[3])
                                                   /\ a[2] # SlotOf(a[3]) => At(nst, a[3]) = At(st, a[3])
    \* C10: so is the target of a move; a swap exchanges
    /\ n \in MoveLike => At(nst, a[2]) = At(st, a[3])
    /\ n \in {"v.swap", "a.swap", "o.swap"} => At(nst, a[2]) = At(st, a[3]) /\ At(nst, a[3]) = At(st, a[2])
    \* C10: only the source of a move is left unspecified
    /\ ~(n \in Moving \/ (n \in Moded /\ a[Len(a)] \in {"m", "cm", "mc", "mm"})) => \A k \in 1..Len(nst) : ~Hollow(nst[k][2])
    \* C11: sequences
    /\ (n \in {"a.push", "v.empA"} /\ r[1] = "v") => (r[2] = a[3] /\ (LET y == At(nst, a[2])[2] IN
          (Len(y) = 1 + (IF At(st, a[2])[1] = "a" THEN Len(At(st, a[2])[2]) ELSE 0) /\ y[Len(y)] = a[3])))
    /\ (n \in {"a.deli", "v.deli", "a.delit"} /\ r[1] = "b") => LET x == Viv(At(st, a[2]), "a")[2] y == At(nst, a[2])[2] IN
          /\ r[2] = (a[3] < Len(x))
          /\ IF r[2] THEN Len(y) = Len(x) - 1 /\ Slice(y, a[3]) = Slice(x, a[3]) /\ \A i \in (a[3] + 1)..Len(y) : y[i] = x[i + 1] ELSE y = x
    /\ (n \in {"a.plus", "v.plus"} /\ r[1] = "v" /\ ~Hollow(r[2])) =>
          LET x == Viv(At(st, a[2]), "a")[2] y == At(st, a[3])[2] IN
          /\ Len(r[2][2]) = Len(x) + Len(y) /\ Slice(r[2][2], Len(x)) = x /\ SubSeq(r[2][2], Len(x) + 1, Len(x) + Len(y)) = y
          /\ a[4] = "cc" => nst = st
    \* C12: what is merged into an object, a part of it included, is what it was when the merge began
    /\ (n = "o.oreq" /\ a[4] = "c") => LET x == At(st, a[2])[2] y == At(st, a[3])[2] z == At(nst, a[2])[2] IN
          \A i \in 1..Len(z) : z[i][2] = IF HasKey(y, z[i][1]) THEN GetKey(At(st, a[3]), z[i][1]) ELSE GetKey(<<"o", x>>, z[i][1])
    /\ (n = "a.pluseq" /\ a[4] = "c") => At(nst, a[2])[2] = At(st, a[2])[2] \o At(st, a[3])[2]
    \* C12: finite maps
    /\ \A k \in 1..Len(nst) : Hollow(nst[k][2]) \/ WellFormed(nst[k][2])
    /\ (n \in {"o.or", "v.or"} /\ r[1] = "v" /\ ~Hollow(r[2])) =>
          LET x == Viv(At(st, a[2]), "o")[2] y == At(st, a[3])[2] z == r[2][2] IN
          /\ { z[i][1] : i \in 1..Len(z) } = { x[i][1] : i \in 1..Len(x) } \cup { y[i][1] : i \in 1..Len(y) }
          /\ \A i \in 1..Len(z) : z[i][2] = IF HasKey(y, z[i][1]) THEN GetKey(At(st, a[3]), z[i][1]) ELSE GetKey(<<"o", x>>, z[i][1])
          /\ a[4] = "cc" => nst = st
    /\ (n \in {"o.emp", "v.empO"} /\ r[1] = "e") => GetKey(At(nst, a[2]), a[3]) = a[4] /\ r[3] = ~HasKey(Viv(At(st, a[2]), "o")[2], a[3])
    /\ n \in {"o.delk"} => ~HasKey(At(nst, a[2])[2], a[3]) /\ r[2] = HasKey(At(st, a[2])[2], a[3])
    \* C13: conversions only of empty values
    /\ \A k \in 1..Len(st) : (n \in {"v.asA", "v.asO", "v.kidx", "v.deli", "v.delk"} /\ r[1] # "jexc" /\ ~Empty(At(st, a[2]))) => At(nst, a[2])[1] = At(st, a[2])[1]
    \* C14: what is reported is there
    /\ (n = "l.find" /\ r[1] = "v" /\ a[4] = "v") => r[2] = Part(At(st, a[2]), <<a[3]>>)
    /\ (n = "l.get" /\ a[4] = "v") => r[2] = IF HasPath(At(st, a[2]), a[3]) THEN Part(At(st, a[2]), a[3]) ELSE a[5]
    \* C26: a value that is converted to a kind is of that kind; only null and what has no parts or characters is empty
    /\ (n = "k.kind") => LET x == At(st, a[2]) IN /\ (x[1] \in {"a", "o", "s"} => (r[3] = (Len(x[2]) = 0))) /\ (x[1] \in {"b", "n"} => ~r[3]) /\ (x[1] = "z" => r[3])
                          /\ SubSeq(r[4], 6, 5 + Len(r[2])) = r[2] /\ Len(r[4]) <= 5 + 7 + 8 + 103
    /\ (n = "l.has") => r[2] = HasPath(At(st, a[2]), <<a[3]>>)

\* An unspecified part continues as null / [] / {}.
RECURSIVE Resolve(_)
Resolve(v) == CASE v[1] = "?" -> IF Len(v) = 1 THEN Null ELSE <<v[2], <<>>>>
                [] v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> Resolve(v[2][i])])
                [] v[1] = "o" -> Obj([i \in 1..Len(v[2]) |-> <<v[2][i][1], Resolve(v[2][i][2])>>])
                [] OTHER -> v

Call ==
    \E n \in Family : \E a \in Calls(n) :
       /\ (Suits(a) /\ Enabled(st, a)) = TRUE
       /\ LET e == Apply(st, a) IN
          /\ Assert(StepOK(a, e[1], e[2]), <<"the call does not have the effect that the properties demand", st, a, e>>)
          /\ PrintT(ToJson([op |-> "one", st |-> st, a |-> a, exp |-> [r |-> e[2], st |-> e[1]]]))
          /\ st' = [k \in 1..Len(st) |-> <<st[k][1], Resolve(e[1][k][2])>>]

\* Growth by one part anywhere; an empty value slot may become any leaf.
RECURSIVE Grown(_)
Grown(v) ==
    CASE v[1] = "a" -> { Arr(Append(v[2], x)) : x \in Leaves } \cup UNION { { Arr([v[2] EXCEPT ![i] = y]) : y \in Grown(v[2][i]) } : i \in 1..Len(v[2]) }
      [] v[1] = "o" -> { Obj(PutMember(v[2], k, x)) : k \in { n \in Names : ~HasKey(v[2], n) }, x \in Leaves }
                       \cup UNION { { Obj([v[2] EXCEPT ![i] = <<v[2][i][1], y>>]) : y \in Grown(v[2][i][2]) } : i \in 1..Len(v[2]) }
      [] OTHER -> {}
Grow == \E k \in 1..Len(st) : \E v \in Grown(st[k][2]) \cup (IF st[k] = <<"V", Null>> THEN Leaves ELSE {}) : st' = [st EXCEPT ![k] = <<@[1], v>>]

Next == Grow \/ Call
Spec == Init /\ [][Next]_st
Bounded == Size(st) <= MaxNodes
TypeOK == \A k \in 1..Len(st) : WellFormed(st[k][2]) /\ (st[k][1] = "A" => st[k][2][1] = "a") /\ (st[k][1] = "O" => st[k][2][1] = "o")
===============================================================================
