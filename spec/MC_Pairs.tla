-------------------------------- MODULE MC_Pairs --------------------------------
(***************************************************************************)
(* Binary calls on containers in every relation to each other.                *)
(*                                                                           *)
(* MC_Store takes every small store; here the stores are pairs of objects with   *)
(* any two sets of names out of a pool (so that they are equal, disjoint,         *)
(* contained, interleaved, adjacent, touching, ...), or pairs of arrays of any     *)
(* two lengths.  Calls on one container are made on every such container, with     *)
(* every name of the pool or position.                                         *)
(***************************************************************************)
EXTENDS MC_Store

CONSTANT MaxLen

\* lengths far from each other as well: what fits into the room of the other one, and what does not
PairLens == (0..MaxLen) \cup {2 * MaxLen + 1, 4 * MaxLen}
PairDig(i) == IF i < 10 THEN <<48 + i>> ELSE <<48 + (i \div 10), 48 + (i % 10)>>

\* in ascending order: the empty name, prefixes of each other, bytes above 127
Pool  == << <<>>, <<97>>, <<97, 97>>, <<98>>, <<195, 169>>, <<255>> >>
NP    == 5
Sub(s, x(_)) == FoldLeft(LAMBDA l, i : IF i \in s THEN Append(l, <<Pool[i], x(i)>>) ELSE l, <<>>, [i \in 1..NP |-> i])
LeftO(s)  == <<"o", Sub(s, LAMBDA i : Num(<<48 + i>>))>>
RightO(s) == <<"o", Sub(s, LAMBDA i : IF i % 2 = 0 THEN Arr(<<Str(<<96 + i>>)>>) ELSE Str(<<96 + i>>))>>
LeftA(n)  == Arr([i \in 1..n |-> Num(PairDig(i))])
RightA(n) == Arr([i \in 1..n |-> IF i % 2 = 0 THEN Obj(<<<<KA, Num(<<57>>)>>>>) ELSE Str(<<97 + (i % 26)>>)])

Objects == Fam \in {"C09", "C10", "C12", "C14", "C27"}
Arrays  == Fam \in {"C09", "C10", "C11", "C14", "C27"}
PairInit ==
    \/ Objects /\ \E l \in SUBSET (1..NP) : \E r \in SUBSET (1..NP) : \E k \in {"V", "O"} : st = <<<<k, LeftO(l)>>, <<"O", RightO(r)>>>>
    \/ Arrays /\ \E l \in PairLens : \E r \in PairLens : \E k \in {"V", "A"} : st = <<<<k, LeftA(l)>>, <<"A", RightA(r)>>>>

L == <<1, <<>>>>
R == <<2, <<>>>>
Both  == { <<L, R>>, <<R, L>>, <<L, L>> }
K     == { Pool[i] : i \in 1..6 }
Lit   == Arr(<<X>>)
PairCalls(n) ==
    CASE n \in {"a.copy", "a.move", "a.swap", "o.copy", "o.move", "o.swap"} -> { <<n, p[1], p[2]>> : p \in Both }
      [] n \in {"v.fromA", "v.fromO", "v.pluseq", "v.oreq"} -> { <<n, L, R, m>> : m \in CM }
      [] n \in {"v.plus", "v.or"} -> { <<n, L, R, m>> : m \in Modes }
      [] n \in {"a.plus", "o.or"} -> { <<n, p[1], p[2], m>> : p \in Both, m \in Modes }
      [] n \in {"a.pluseq", "o.oreq"} -> { <<n, p[1], p[2], m>> : p \in Both, m \in CM }
      \* calls on one container only where the other one is empty
      [] st[2][2][2] # <<>> -> {}
      [] n \in {"o.emp", "o.kset", "v.empO", "v.kset"} -> { <<n, L, k, Lit, m>> : k \in K, m \in {"l", "r"} }
      [] n \in {"o.kidx", "v.kidx"} -> { <<n, L, k, m>> : k \in K, m \in {"l", "r"} }
      [] n \in {"o.delk", "o.delit", "v.delk", "o.at", "v.at"} -> { <<n, L, k>> : k \in K }
      [] n = "o.itset" -> { <<n, L, k, Lit>> : k \in K }
      [] n \in {"o.info", "a.info", "o.clear", "a.clear", "v.clear"} -> { <<n, L>> }
      [] n \in {"a.push"} -> { <<n, L, Lit, m>> : m \in {"e", "p"} }
      [] n \in {"v.empA"} -> { <<n, L, Lit>> }
      [] n \in {"a.delit", "a.idx", "v.iidx", "v.ciidx", "a.deli", "a.at", "v.deli", "v.ati"} -> { <<n, L, i>> : i \in 0..(MaxLen + 1) }
      [] n \in {"a.iset", "v.iset"} -> { <<n, L, i, Lit>> : i \in 0..MaxLen }
      [] n = "a.itset" -> { <<n, L, i, Lit, m>> : i \in 0..MaxLen, m \in {"f", "r"} }
      [] n \in {"l.fv", "l.has"} -> { <<n, L, <<"k", k>>>> : k \in K } \cup { <<n, L, <<"i", i>>>> : i \in 0..(MaxLen + 1) }
      [] n = "l.find" -> { <<n, L, <<"k", k>>, t>> : k \in K, t \in {"v", "i"} } \cup { <<n, L, <<"i", i>>, t>> : i \in 0..(MaxLen + 1), t \in {"v", "i"} }
      [] n = "l.get" -> { <<n, L, <<<<"k", k>>>>, w[1], w[2]>> : k \in K, w \in { x \in Wanted : x[1] \in {"v", "i"} } }
      [] OTHER -> {}
PairCall ==
    \E n \in Family : \E a \in PairCalls(n) :
       /\ (Suits(a) /\ Enabled(st, a)) = TRUE
       /\ LET e == Apply(st, a) IN
          /\ Assert(StepOK(a, e[1], e[2]), <<"the call does not have the effect that the properties demand", st, a, e>>)
          /\ PrintT(ToJson([op |-> "one", st |-> st, a |-> a, exp |-> [r |-> e[2], st |-> e[1]]]))
       /\ FALSE
PairSpec == PairInit /\ [][PairCall]_st
===============================================================================
