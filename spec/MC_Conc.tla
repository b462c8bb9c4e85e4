-------------------------------- MODULE MC_Conc --------------------------------
(***************************************************************************)
(* Threads over one constant object that they share and one object that each  *)
(* of them owns.                                                             *)
(*                                                                         *)
(* Slot 1 of the store is shared and constant; slot t + 1 belongs to thread t. *)
(* A call has a beginning, at which it starts to read, and an end, at which    *)
(* what it writes is there; other threads run in between.  The calls that the  *)
(* property allows are the ones of Menu.  Checked in every interleaving:       *)
(*                                                                         *)
(*   RaceFree     no call in progress writes what another one uses;            *)
(*   Undisturbed  nothing that happens during a call changes its effect;        *)
(*   Alone        every thread gets the results, and leaves the object, that    *)
(*                its calls give without the other threads;                    *)
(*   Constant     the shared object never changes.                             *)
(*                                                                         *)
(* Alone is what allows the replay to pool the programs of the threads: the    *)
(* outcome expected of each does not depend on what runs beside it.            *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS MaxNodes, MaxCalls, N, Emit

VARIABLES st, own0, act, hist
vars == <<st, own0, act, hist>>
T == 1..N

One == Num(<<49>>)
X   == Str(<<120>>)
KA  == <<97>>
KB  == <<98>>
Leaves == {Null, One, X, EmptyArr, EmptyObj}
Names  == {KA, KB}
Owns   == {Null, Arr(<<X>>), Obj(<<<<KB, One>>>>)}

RECURSIVE Grown(_)
Grown(v) ==
    CASE v[1] = "a" -> { Arr(Append(v[2], x)) : x \in Leaves } \cup UNION { { Arr([v[2] EXCEPT ![i] = y]) : y \in Grown(v[2][i]) } : i \in 1..Len(v[2]) }
      [] v[1] = "o" -> { Obj(PutMember(v[2], k, x)) : k \in { n \in Names : ~HasKey(v[2], n) }, x \in Leaves }
                       \cup UNION { { Obj([v[2] EXCEPT ![i] = <<v[2][i][1], y>>]) : y \in Grown(v[2][i][2]) } : i \in 1..Len(v[2]) }
      [] OTHER -> {}
RECURSIVE Upto(_)
Upto(n) == IF n = 1 THEN Leaves ELSE LET p == Upto(n - 1) IN p \cup UNION { Grown(v) : v \in { x \in p : NodeCount(x) = n - 1 } }
Shared == Upto(MaxNodes)

RECURSIVE Paths(_)
Paths(v) == { <<>> } \cup
    (CASE v[1] = "a" -> UNION { { <<<<"i", i - 1>>>> \o p : p \in Paths(v[2][i]) } : i \in 1..Len(v[2]) }
       [] v[1] = "o" -> UNION { { <<<<"k", v[2][i][1]>>>> \o p : p \in Paths(v[2][i][2]) } : i \in 1..Len(v[2]) }
       [] OTHER -> {})
Hs == { <<1, p>> : p \in Paths(st[1][2]) }          \* the parts of the shared object
Own(t) == <<t + 1, <<>>>>

Scalars == {"boolean", "string", "string_view", "op_string", "integer", "op_int", "long_long", "double", "null", "monostate"}
Steps_  == { <<"k", KA>>, <<"k", KB>>, <<"i", 0>>, <<"i", 1>> }
Wanted  == { <<"v", Arr(<<X>>)>>, <<"i", Num(<<45, 55>>)>>, <<"s", Str(<<100>>)>>, <<"a", Arr(<<Null, X>>)>>, <<"vi", Arr(<<Num(<<55>>)>>)>> }

\* Reading the shared object
Reads ==
    { <<n, h>> : n \in {"c.use", "c.info", "v.casA", "v.casO", "v.toA", "v.toO"}, h \in Hs }
    \cup { <<"c.eq", h, g>> : h \in Hs, g \in Hs }
    \cup { <<"v.scalar", h, s>> : h \in Hs, s \in Scalars }
    \cup { <<n, h, i>> : n \in {"v.ciidx", "v.ati"}, h \in Hs, i \in 0..2 }
    \cup { <<"v.at", h, k>> : h \in Hs, k \in Names }
    \cup { <<"l.get", h, <<e>>, w[1], w[2]>> : h \in Hs, e \in Steps_, w \in Wanted }
    \cup { <<"l.find", h, e, y>> : h \in Hs, e \in Steps_, y \in {"v", "b", "i", "s", "o", "vi"} }
    \cup { <<n, h, e>> : n \in {"l.fv", "l.has"}, h \in Hs, e \in Steps_ }
    \cup { <<n, h, g, "cc">> : n \in {"v.plus", "v.or"}, h \in Hs, g \in Hs }
\* Taking copies of it
Copies(t) ==
    { <<"v.copy", Own(t), h>> : h \in Hs } \cup { <<"v.empAc", Own(t), h>> : h \in Hs }
    \cup { <<n, Own(t), h, "c">> : n \in {"v.fromA", "v.fromO", "v.pluseq", "v.oreq"}, h \in Hs }
    \cup { <<n, Own(t), KA, h, "l">> : n \in {"v.kcopy", "v.empOc"}, h \in Hs }
    \cup { <<"n.copyV", t + 1, h>> : h \in Hs }
    \cup { <<n, Own(t), h, m>> : n \in {"v.plus", "v.or"}, h \in Hs, m \in {"cc", "mc"} }
    \cup { <<"c.eq", Own(t), h>> : h \in Hs } \cup { <<"c.eq", h, Own(t)>> : h \in Hs }
\* Using one's own object
Alters(t) ==
    { <<"v.lit", Own(t), x>> : x \in {One, Obj(<<<<KA, X>>>>)} } \cup { <<"v.clear", Own(t)>>, <<"v.asA", Own(t)>>, <<"v.use", Own(t)>> }
    \cup { <<"v.kset", Own(t), KA, X, "l">>, <<"v.empA", Own(t), One>>, <<"v.kidx", Own(t), KB, "l">>, <<"v.deli", Own(t), 0>> }
Root == <<1, <<>>>>
Few(t) == { <<"c.use", Root>>, <<"v.copy", Own(t), Root>>, <<"v.kcopy", Own(t), KA, Root, "l">>, <<"v.empA", Own(t), One>> }
Menu(t) == IF t = 1 THEN Reads \cup Copies(t) \cup Alters(t) ELSE Few(t)

\* The slots that a call writes, and those that it uses otherwise.
ReadOnly == ConstOps \cup LookupOps \cup {"v.casA", "v.casO", "v.toA", "v.toO", "v.scalar", "v.ciidx", "v.ati", "v.at"}
Writes(a) == CASE a[1] \in ReadOnly -> {}
               [] a[1] \in {"v.plus", "v.or"} -> IF a[4] = "cc" THEN {} ELSE {SlotOf(a[2])}
               [] a[1] = "n.copyV" -> {a[2]}
               [] OTHER -> {SlotOf(a[2])}
Uses(a) == Touched(a)

RECURSIVE Resolve(_)
Resolve(v) == CASE v[1] = "?" -> IF Len(v) = 1 THEN Null ELSE <<v[2], <<>>>>
                [] v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> Resolve(v[2][i])])
                [] v[1] = "o" -> Obj([i \in 1..Len(v[2]) |-> <<v[2][i][1], Resolve(v[2][i][2])>>])
                [] OTHER -> v

Init == /\ \E s \in Shared : \E o \in [T -> Owns] :
              /\ (Emit = "all" \/ \A t \in T \ {1} : o[t] = Null)
              /\ st = <<<<"V", s>>>> \o [t \in T |-> <<"V", o[t]>>] /\ own0 = o
        /\ act = [t \in T |-> <<>>] /\ hist = [t \in T |-> <<>>]

\* Simulation draws the call first.
Options(t) == LET m == { a \in (IF Emit = "all" THEN RandomElement({Reads, Copies(t), Alters(t)}) ELSE Menu(t)) : Enabled(st, a) } IN
              IF Emit = "all" /\ m # {} THEN {RandomElement(m)} ELSE m
Begin(t) == /\ act[t] = <<>> /\ Len(hist[t]) < MaxCalls
            /\ \E a \in Options(t) : act' = [act EXCEPT ![t] = <<a, Apply(st, a)>>]
            /\ UNCHANGED <<st, own0, hist>>
End(t) == /\ act[t] # <<>>
          /\ LET a == act[t][1] e == act[t][2] IN
             /\ st' = [k \in 1..Len(st) |-> IF k \in Writes(a) THEN <<st[k][1], Resolve(e[1][k][2])>> ELSE st[k]]
             /\ hist' = [hist EXCEPT ![t] = Append(@, <<a, e[2], e[1][t + 1]>>)]
          /\ act' = [act EXCEPT ![t] = <<>>] /\ UNCHANGED own0
          /\ (Emit = "alone" /\ t = 1 /\ Len(hist'[1]) = MaxCalls /\ \A u \in T \ {1} : act[u] = <<>> /\ hist[u] = <<>>)
                => PrintT(ToJson([sh |-> st[1][2], th |-> <<[own |-> own0[1], h |-> hist'[1]]>>]))
          /\ (Emit = "all" /\ \A u \in T : Len(hist'[u]) = MaxCalls)
                => PrintT(ToJson([sh |-> st[1][2], th |-> [u \in T |-> [own |-> own0[u], h |-> hist'[u]]]]))
Next == \E t \in T : Begin(t) \/ End(t)
Spec == Init /\ [][Next]_vars

RaceFree == \A t, u \in T : (t # u /\ act[t] # <<>> /\ act[u] # <<>>) => Writes(act[t][1]) \cap (Writes(act[u][1]) \cup Uses(act[u][1])) = {}
Undisturbed == \A t \in T : act[t] # <<>> =>
    LET e == act[t][2] n == Apply(st, act[t][1]) IN e[2] = n[2] /\ \A k \in Writes(act[t][1]) : e[1][k] = n[1][k]
Constant == \A t \in T : 1 \notin (IF act[t] = <<>> THEN {} ELSE Writes(act[t][1]))

\* The store that thread t would see on its own after its calls, if the results are the ones that it got; <<>> if they are not.
Solo(t) ==
    FoldLeft(LAMBDA s, c : IF s = <<>> THEN <<>> ELSE LET e == Apply(s, c[1]) IN
                  IF e[2] # c[2] \/ e[1][t + 1] # c[3] THEN <<>> ELSE [k \in 1..Len(s) |-> <<s[k][1], Resolve(e[1][k][2])>>],
             [st EXCEPT ![t + 1] = <<"V", own0[t]>>], hist[t])
Alone == \A t \in T : LET s == Solo(t) IN s # <<>> /\ s[t + 1] = st[t + 1]
===============================================================================
