--------------------------------- MODULE MC_Nest ---------------------------------
(***************************************************************************)
(* Calls on two places in one value.                                          *)
(*                                                                           *)
(* The stores of MC_Store are small and of any shape.  Here one container of   *)
(* up to MaxLen parts has, besides scalars of one kind, one container (or only  *)
(* such containers) with up to MaxLen scalars of one kind.  A call is made on    *)
(* every two handles of which one denotes a part of the other (or the same).     *)
(***************************************************************************)
EXTENDS MC_Store

CONSTANT MaxLen

Scal(k, i) == CASE k = "n" -> Num(<<48 + i>>) [] k = "s" -> Str(<<96 + i>>) [] k = "z" -> Null
Cont(t, n, x(_)) == IF t = "a" THEN Arr([i \in 1..n |-> x(i)]) ELSE Obj([i \in 1..n |-> <<<<96 + i>>, x(i)>>])
NestInit == \E t \in {"a", "o"}, n \in 1..MaxLen, ct \in {"a", "o"}, ck \in {"n", "s", "z"}, cn \in 0..MaxLen, ok \in {"n", "z", "c"}, slot \in {"V", "C"} :
            \E p \in (IF ok = "c" THEN {1} ELSE 1..n) :
    LET child == Cont(ct, cn, LAMBDA i : Scal(ck, i))
        v == Cont(t, n, LAMBDA i : IF i = p \/ ok = "c" THEN child ELSE Scal(ok, i))
    IN st = <<<<IF slot = "V" THEN "V" ELSE IF t = "a" THEN "A" ELSE "O", v>>>>

Two   == {"v.copy", "v.move", "v.swap", "v.fromA", "v.fromO", "v.empAc", "v.plus", "v.or", "v.pluseq", "v.oreq", "a.pushc", "a.pushm", "a.pushA", "a.pushO",
          "a.plus", "a.pluseq", "a.copy", "a.move", "a.swap", "o.or", "o.oreq", "o.copy", "o.move", "o.swap"}
Three == {"v.kcopy", "v.kmove", "v.icopy", "v.empOc", "a.icopy", "o.empc", "o.empm", "o.kcopy", "o.kmove"}
NestCall ==
    \E n \in Family \cap (Two \cup Three) : \E a \in Calls(n) :
       LET g == IF n \in Two THEN a[3] ELSE a[4] IN
       /\ Overlap(a[2], g)
       /\ (Suits(a) /\ Enabled(st, a)) = TRUE
       /\ LET e == Apply(st, a) IN
          /\ Assert(StepOK(a, e[1], e[2]), <<"the call does not have the effect that the properties demand", st, a, e>>)
          /\ PrintT(ToJson([op |-> "one", st |-> st, a |-> a, exp |-> [r |-> e[2], st |-> e[1]]]))
       /\ FALSE
NestSpec == NestInit /\ [][NestCall]_st
===============================================================================
