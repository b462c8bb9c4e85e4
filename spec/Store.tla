--------------------------------- MODULE Store ---------------------------------
(***************************************************************************)
(* The programming interface as a state machine over a store of named        *)
(* objects.                                                                  *)
(*                                                                           *)
(* A store is a sequence of slots <<kind, v>>: kind "V" is a json::value,     *)
(* "A" a json::array, "O" a json::object, and v the abstract value.           *)
(* A handle <<slot, path>> names a slot or a part of it; a path is a          *)
(* sequence of <<"k", name>> and <<"i", position>> (positions from 0).        *)
(*                                                                           *)
(* Apply(st, a) is the effect of one call a = <<name, arguments...>>: the      *)
(* pair <<store after, result>>.  Enabled(st, a) says whether the             *)
(* specification says anything about the call (calls with undefined           *)
(* behaviour, such as an unchecked subscript out of range, are not).           *)
(*                                                                           *)
(* <<"?">> stands for an unspecified but valid value (what a moved-from        *)
(* object holds), <<"?", "a">> / <<"?", "o">> for an unspecified array /       *)
(* object.                                                                    *)
(***************************************************************************)
EXTENDS JsonText, JsonNum, JsonEq

AnyV  == <<"?">>
AnyA == <<"?", "a">>
AnyO == <<"?", "o">>

(***************************************************************************)
(* Parts of values.                                                          *)
(***************************************************************************)
HasStep(v, e) == IF e[1] = "k" THEN v[1] = "o" /\ HasKey(v[2], e[2])
                 ELSE v[1] = "a" /\ e[2] + 1 \in 1..Len(v[2])
Child(v, e)   == IF e[1] = "k" THEN v[2][KeyPos(v[2], e[2])][2] ELSE v[2][e[2] + 1]
SetChild(v, e, x) == IF e[1] = "k" THEN Obj(PutMember(v[2], e[2], x))
                     ELSE Arr([v[2] EXCEPT ![e[2] + 1] = x])
RECURSIVE HasPath(_, _)
HasPath(v, p) == IF p = <<>> THEN TRUE ELSE HasStep(v, p[1]) /\ HasPath(Child(v, p[1]), Tail(p))
RECURSIVE Part(_, _)
Part(v, p) == IF p = <<>> THEN v ELSE Part(Child(v, p[1]), Tail(p))
RECURSIVE SetPart(_, _, _)
SetPart(v, p, x) == IF p = <<>> THEN x ELSE SetChild(v, p[1], SetPart(Child(v, p[1]), Tail(p), x))

SlotOf(h) == h[1]
PathOf(h) == h[2]
At(st, h)     == Part(st[SlotOf(h)][2], PathOf(h))
Set(st, h, x) == [st EXCEPT ![SlotOf(h)] = <<@[1], SetPart(@[2], PathOf(h), x)>>]
Exists(st, h) == SlotOf(h) \in 1..Len(st) /\ HasPath(st[SlotOf(h)][2], PathOf(h))
Plus1(h, e)   == <<SlotOf(h), Append(PathOf(h), e)>>

PathPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Covers(h, g)   == SlotOf(h) = SlotOf(g) /\ PathPrefix(PathOf(h), PathOf(g))      \* g is h or a part of h
Within(h, g)     == Covers(h, g) /\ h # g                                \* g is a strict part of h
\* the path of a part g of h, from h
Below(h, g)      == SubSeq(PathOf(g), Len(PathOf(h)) + 1, Len(PathOf(g)))
Overlap(h, g)    == Covers(h, g) \/ Covers(g, h)

\* Which handles denote objects of which C++ type.
IsV(st, h) == Exists(st, h) /\ (st[SlotOf(h)][1] = "V" \/ PathOf(h) # <<>>)
IsA(st, h) == Exists(st, h) /\ At(st, h)[1] = "a"
IsO(st, h) == Exists(st, h) /\ At(st, h)[1] = "o"

(***************************************************************************)
(* Empty values become containers when a mutable container access is made.   *)
(***************************************************************************)
Empty(v) == v[1] = "z" \/ (v[1] \in {"s", "a", "o"} /\ v[2] = <<>>)
CanBe(v, kind) == v[1] = kind \/ Empty(v)
Viv(v, kind)   == IF Empty(v) THEN <<kind, <<>>>> ELSE v

Ok  == <<"ok">>
Thr == <<"jexc">>           \* json::exception
Exc == <<"exc">>            \* any exception derived from std::exception
B(x)   == <<"b", x>>
Val(x) == <<"v", x>>

(***************************************************************************)
(* Sequences and maps.                                                       *)
(***************************************************************************)
ElemOr(v, i) == v[2][i + 1]
HasPos(v, i) == i + 1 \in 1..Len(v[2])
DelPos(v, i) == Arr(RemoveAt(v[2], i + 1))
SetPos(v, i, x) == Arr([v[2] EXCEPT ![i + 1] = x])
PutKey(v, k, x) == Obj(PutMember(v[2], k, x))
GetKey(v, k) == v[2][KeyPos(v[2], k)][2]
WithKey(v, k) == IF HasKey(v[2], k) THEN v ELSE PutKey(v, k, Null)
Cat(v, w)    == Arr(v[2] \o w[2])
Merge(v, w)  == Obj(MergeMembers(v[2], w[2]))
Keys(v)      == [i \in 1..Len(v[2]) |-> v[2][i][1]]

AnyOf(kind) == IF kind = "a" THEN AnyA ELSE IF kind = "o" THEN AnyO ELSE AnyV

(***************************************************************************)
(* Assignment from an lvalue and from an expiring object.                     *)
(***************************************************************************)
CopyTo(st, h, g) == Set(st, h, At(st, g))
\* g is left unspecified (as an object of the kind `left`), unless it was h itself or a part of it.
MoveTo(st, h, g, left) ==
    LET x == At(st, g) IN
    IF Covers(h, g) THEN Set(st, h, x) ELSE Set(Set(st, g, left), h, x)
Swap(st, h, g) == Set(Set(st, h, At(st, g)), g, At(st, h))

(***************************************************************************)
(* Calls on values.                                                          *)
(***************************************************************************)
\* (*h)[k] on a value
VKey(st, h, k) == Set(st, h, WithKey(Viv(At(st, h), "o"), k))

Modes == {"cc", "cm", "mc", "mm"}
LMove(m) == m \in {"mc", "mm"}
RMove(m) == m \in {"cm", "mm"}

\* h (op) g as an expression, for a receiver that is a value or a container; kind "a": +, kind "o": |
Binary(st, h, g, m, kind, isValue) ==
    LET x  == At(st, h)
        y  == At(st, g)
        ok == IF isValue /\ LMove(m) THEN CanBe(x, kind) ELSE x[1] = kind
        \* a right operand that is moved out of an expiring left one leaves its place in it unspecified
        l  == IF LMove(m) /\ RMove(m) /\ Within(h, g) /\ ok THEN SetPart(x, Below(h, g), AnyOf(kind)) ELSE Viv(x, kind)
        res == IF kind = "a" THEN Cat(l, y) ELSE Merge(l, y)
        st1 == IF RMove(m) THEN Set(st, g, AnyOf(kind)) ELSE st
        st2 == IF LMove(m) THEN Set(st1, h, AnyOf(kind)) ELSE st1
    IN IF ~ok THEN <<st, Thr>>
       ELSE IF h = g /\ m = "mm" THEN <<st2, Val(AnyOf(kind))>>
       ELSE <<IF LMove(m) /\ Within(h, g) THEN Set(st, h, AnyOf(kind)) ELSE st2, Val(res)>>
\* An expiring operand that is a part of the other one is specified, an operand that is a part of an expiring right one is not.
BinaryEnabled(st, h, g, m, kind) == (LMove(m) \/ RMove(m)) => ~Within(g, h)

\* h (op)= g
Compound(st, h, g, m, kind, isValue) ==
    LET x == At(st, h)
        y == At(IF isValue /\ CanBe(x, kind) THEN Set(st, h, Viv(x, kind)) ELSE st, g)
        l == IF m = "m" /\ Within(h, g) THEN SetPart(x, Below(h, g), AnyOf(kind)) ELSE Viv(x, kind)
        res == IF kind = "a" THEN Cat(l, y) ELSE Merge(l, y)
    IN IF (IF isValue THEN ~CanBe(x, kind) ELSE x[1] # kind) THEN <<st, Thr>>
       ELSE IF m = "m" /\ h = g THEN <<Set(st, h, AnyOf(kind)), Ok>>
       ELSE IF m = "m" /\ ~Within(h, g) THEN <<Set(Set(st, g, AnyOf(kind)), h, res), Ok>>
       ELSE <<Set(st, h, res), Ok>>
\* The operand may be a part of the receiver, one among what is replaced included.  A receiver that is a part of its operand is
\* specified for objects only: its members are those that the operand had when the merge began.
CompoundEnabled(st, h, g, m, kind) == Within(g, h) => kind = "o" /\ m = "c"

\* What a getter of C++ type t returns for v, or <<>> when v is not convertible.
As(v, t) ==
    CASE t = "v" -> <<v>>
      [] t = "b" -> IF IsBool(v) THEN <<v>> ELSE <<>>
      [] t = "i" -> IF IsNum(v) /\ Fits(v[2], Int32Range) THEN <<Num(IntText(v[2]))>> ELSE <<>>
      [] t = "l" -> IF IsNum(v) /\ Fits(v[2], Int64Range) THEN <<Num(IntText(v[2]))>> ELSE <<>>
      [] t = "u" -> IF IsNum(v) /\ ~Neg(v[2]) /\ Fits(v[2], UInt32Range) THEN <<v>> ELSE <<>>
      [] t = "s" -> IF IsStr(v) THEN <<v>> ELSE <<>>
      [] t = "a" -> IF IsArr(v) THEN <<v>> ELSE <<>>
      [] t = "o" -> IF IsObj(v) THEN <<v>> ELSE <<>>
      [] t = "vi" -> IF IsArr(v) /\ \A i \in 1..Len(v[2]) : IsNum(v[2][i]) /\ Fits(v[2][i][2], Int32Range)
                     THEN <<Arr([i \in 1..Len(v[2]) |-> Num(IntText(v[2][i][2]))])>> ELSE <<>>

\* Follows a chain of names and positions: <<value>> or <<>>.
RECURSIVE Follow(_, _)
Follow(v, chain) == IF chain = <<>> THEN <<v>>
                    ELSE IF HasStep(v, chain[1]) THEN Follow(Child(v, chain[1]), Tail(chain)) ELSE <<>>
GetOr(v, chain, t, d) == LET f == Follow(v, chain) IN
                         IF f = <<>> THEN d ELSE LET c == As(f[1], t) IN IF c = <<>> THEN d ELSE c[1]
Find(v, e, t) == LET f == Follow(v, <<e>>) IN
                 IF f = <<>> THEN <<"none">> ELSE LET c == As(f[1], t) IN IF c = <<>> THEN <<"none">> ELSE Val(c[1])

\* Names of the calls, by what they are about.
CopyOps == {"v.copy", "v.fromA", "v.fromO", "a.copy", "o.copy", "n.copyV", "n.copyA", "n.copyO", "n.fromA", "n.fromO",
            "v.kcopy", "v.icopy", "a.icopy", "o.kcopy", "a.pushc", "o.empc", "v.empAc", "v.empOc", "a.pushA", "a.pushO"}
MoveOps == {"v.move", "v.swap", "a.move", "a.swap", "o.move", "o.swap", "n.moveV", "n.moveA", "n.moveO", "n.fromA", "n.fromO",
            "v.fromA", "v.fromO", "v.kmove", "o.kmove", "a.pushm", "o.empm", "a.pushA", "a.pushO", "v.use", "v.clear", "v.lit",
            "v.plus", "a.plus", "v.or", "o.or", "v.pluseq", "a.pluseq", "v.oreq", "o.oreq"}
ArrayOps == {"a.push", "a.pushc", "a.pushm", "a.pushA", "a.pushO", "a.deli", "a.delit", "a.clear", "a.at", "a.idx", "a.iset", "a.icopy",
             "a.itset", "a.info", "a.plus", "a.pluseq", "v.plus", "v.pluseq", "v.empA", "v.empAc", "v.iset", "v.icopy", "v.deli",
             "n.sized", "n.listA", "n.seqA"}
ObjectOps == {"o.emp", "o.empc", "o.empm", "o.kidx", "o.kset", "o.kcopy", "o.kmove", "o.delk", "o.delit", "o.clear", "o.at", "o.itset", "o.info",
              "o.or", "o.oreq", "v.or", "v.oreq", "v.empO", "v.empOc", "v.kidx", "v.kset", "v.kcopy", "v.kmove", "v.delk",
              "n.listO", "n.listV", "n.mapO"}
AccessOps == {"v.asA", "v.asO", "v.casA", "v.casO", "v.toA", "v.toO", "v.scalar", "v.kidx", "v.kset", "v.iidx", "v.ciidx", "v.iset", "v.at", "v.ati",
              "v.delk", "v.deli", "v.empA", "v.empO", "v.plus", "v.pluseq", "v.or", "v.oreq", "a.at", "o.at"}
LookupOps == {"l.get", "l.find", "l.fv", "l.has"}
KindOps == {"k.kind"}
\* Uses of a constant object, other than the accesses and lookups above.
ConstOps == {"c.use", "c.eq", "c.info"}

Owned(prop, name) ==
    CASE prop = "C09" -> name \in CopyOps
      [] prop = "C10" -> name \in MoveOps
      [] prop = "C11" -> name \in ArrayOps
      [] prop = "C12" -> name \in ObjectOps
      [] prop = "C13" -> name \in AccessOps
      [] prop = "C14" -> name \in LookupOps
      [] prop = "C26" -> name \in KindOps
      [] OTHER -> TRUE

\* The slots that a call may change.
Touched(a) ==
    LET hs == CASE a[1] \in {"c.eq", "v.copy", "v.move", "v.swap", "v.fromA", "v.fromO", "a.copy", "a.move", "a.swap", "o.copy", "o.move", "o.swap",
                             "a.pushc", "a.pushm", "a.pushA", "a.pushO", "v.empAc", "a.plus", "a.pluseq", "o.or", "o.oreq", "v.plus", "v.pluseq", "v.or", "v.oreq"}
                 -> {SlotOf(a[2]), SlotOf(a[3])}
                [] a[1] \in {"v.kcopy", "v.icopy", "v.kmove", "a.icopy", "o.kcopy", "o.kmove", "o.empc", "o.empm", "v.empOc"} -> {SlotOf(a[2]), SlotOf(a[4])}
                [] a[1] \in {"n.copyV", "n.moveV", "n.copyA", "n.moveA", "n.copyO", "n.moveO", "n.fromA", "n.fromO"} -> {a[2], SlotOf(a[3])}
                [] a[1] \in {"n.sized", "n.listA", "n.seqA", "n.listO", "n.listV", "n.mapO"} -> {a[2]}
                [] OTHER -> {SlotOf(a[2])}
    IN hs

(***************************************************************************)
(* Which calls the specification covers.                                      *)
(***************************************************************************)
Enabled(st, a) ==
    LET n == a[1] IN
    CASE n \in {"v.copy"} -> IsV(st, a[2]) /\ IsV(st, a[3])
      [] n = "v.move" -> IsV(st, a[2]) /\ IsV(st, a[3]) /\ ~Within(a[3], a[2])
      [] n = "v.swap" -> IsV(st, a[2]) /\ IsV(st, a[3]) /\ (a[2] = a[3] \/ ~Overlap(a[2], a[3]))
      [] n \in {"v.lit", "v.clear", "v.asA", "v.asO", "v.casA", "v.casO", "v.toA", "v.toO", "v.scalar", "v.kidx", "v.kset", "v.at", "v.ati",
                "v.delk", "v.deli", "v.empA", "v.empO", "v.use"} -> IsV(st, a[2])
      [] n \in {"v.iidx", "v.iset"} -> IsV(st, a[2]) /\ LET x == At(st, a[2]) IN IF IsArr(x) THEN HasPos(x, a[3]) ELSE ~Empty(x)
      [] n = "v.ciidx" -> IsV(st, a[2]) /\ LET x == At(st, a[2]) IN IsArr(x) => HasPos(x, a[3])
      [] n = "v.icopy" -> IsV(st, a[2]) /\ IsV(st, a[4]) /\ LET x == At(st, a[2]) IN IF IsArr(x) THEN HasPos(x, a[3]) ELSE ~Empty(x)
      [] n = "v.fromA" -> IsV(st, a[2]) /\ IsA(st, a[3]) /\ (a[4] = "m" => ~Within(a[3], a[2]))
      [] n = "v.fromO" -> IsV(st, a[2]) /\ IsO(st, a[3]) /\ (a[4] = "m" => ~Within(a[3], a[2]))
      [] n = "v.kcopy" -> IsV(st, a[2]) /\ IsV(st, a[4])
      [] n = "v.kmove" -> IsV(st, a[2]) /\ IsV(st, a[4]) /\ ~Covers(a[4], a[2])
      [] n = "v.empAc" -> IsV(st, a[2]) /\ IsV(st, a[3]) /\ (Covers(a[3], a[2]) => ~Empty(At(st, a[2])) \/ IsArr(At(st, a[2])))
      [] n = "v.empOc" -> IsV(st, a[2]) /\ IsV(st, a[4]) /\ (Covers(a[4], a[2]) => ~Empty(At(st, a[2])) \/ IsObj(At(st, a[2])))
      [] n = "v.plus" -> IsV(st, a[2]) /\ IsA(st, a[3]) /\ BinaryEnabled(st, a[2], a[3], a[4], "a")
      [] n = "v.or" -> IsV(st, a[2]) /\ IsO(st, a[3]) /\ BinaryEnabled(st, a[2], a[3], a[4], "o")
      [] n = "v.pluseq" -> IsV(st, a[2]) /\ IsA(st, a[3]) /\ CompoundEnabled(st, a[2], a[3], a[4], "a")
      [] n = "v.oreq" -> IsV(st, a[2]) /\ IsO(st, a[3]) /\ CompoundEnabled(st, a[2], a[3], a[4], "o")
      [] n \in {"a.push", "a.clear", "a.at", "a.deli", "a.info"} -> IsA(st, a[2])
      [] n = "a.delit" -> IsA(st, a[2]) /\ a[3] \in 0..Len(At(st, a[2])[2])
      [] n \in {"a.idx", "a.iset", "a.itset"} -> IsA(st, a[2]) /\ HasPos(At(st, a[2]), a[3])
      [] n = "a.icopy" -> IsA(st, a[2]) /\ HasPos(At(st, a[2]), a[3]) /\ IsV(st, a[4])
      [] n = "a.pushc" -> IsA(st, a[2]) /\ IsV(st, a[3])
      [] n = "a.pushm" -> IsA(st, a[2]) /\ IsV(st, a[3]) /\ ~Covers(a[3], a[2])
      [] n = "a.pushA" -> IsA(st, a[2]) /\ IsA(st, a[3]) /\ (a[4] = "m" => ~Covers(a[3], a[2]))
      [] n = "a.pushO" -> IsA(st, a[2]) /\ IsO(st, a[3]) /\ (a[4] = "m" => ~Covers(a[3], a[2]))
      [] n = "a.plus" -> IsA(st, a[2]) /\ IsA(st, a[3]) /\ BinaryEnabled(st, a[2], a[3], a[4], "a")
      [] n = "a.pluseq" -> IsA(st, a[2]) /\ IsA(st, a[3]) /\ CompoundEnabled(st, a[2], a[3], a[4], "a")
      [] n = "a.copy" -> IsA(st, a[2]) /\ IsA(st, a[3])
      [] n = "a.move" -> IsA(st, a[2]) /\ IsA(st, a[3]) /\ ~Within(a[3], a[2])
      [] n = "a.swap" -> IsA(st, a[2]) /\ IsA(st, a[3]) /\ (a[2] = a[3] \/ ~Overlap(a[2], a[3]))
      [] n \in {"o.emp", "o.kidx", "o.kset", "o.delk", "o.delit", "o.clear", "o.at", "o.info"} -> IsO(st, a[2])
      [] n = "o.itset" -> IsO(st, a[2]) /\ HasKey(At(st, a[2])[2], a[3])
      [] n \in {"o.empc", "o.kcopy"} -> IsO(st, a[2]) /\ IsV(st, a[4])
      [] n \in {"o.empm", "o.kmove"} -> IsO(st, a[2]) /\ IsV(st, a[4]) /\ ~Covers(a[4], a[2])
      [] n = "o.or" -> IsO(st, a[2]) /\ IsO(st, a[3]) /\ BinaryEnabled(st, a[2], a[3], a[4], "o")
      [] n = "o.oreq" -> IsO(st, a[2]) /\ IsO(st, a[3]) /\ CompoundEnabled(st, a[2], a[3], a[4], "o")
      [] n = "o.copy" -> IsO(st, a[2]) /\ IsO(st, a[3])
      [] n = "o.move" -> IsO(st, a[2]) /\ IsO(st, a[3]) /\ ~Within(a[3], a[2])
      [] n = "o.swap" -> IsO(st, a[2]) /\ IsO(st, a[3]) /\ (a[2] = a[3] \/ ~Overlap(a[2], a[3]))
      [] n \in {"n.copyV", "n.moveV"} -> st[a[2]][1] = "V" /\ IsV(st, a[3])
      [] n \in {"n.copyA", "n.moveA"} -> st[a[2]][1] = "A" /\ IsA(st, a[3])
      [] n \in {"n.copyO", "n.moveO"} -> st[a[2]][1] = "O" /\ IsO(st, a[3])
      [] n = "n.fromA" -> st[a[2]][1] = "V" /\ IsA(st, a[3])
      [] n = "n.fromO" -> st[a[2]][1] = "V" /\ IsO(st, a[3])
      [] n \in {"n.sized", "n.listA", "n.seqA"} -> st[a[2]][1] = "A"
      [] n \in {"n.listO", "n.mapO"} -> st[a[2]][1] = "O"
      [] n = "n.listV" -> st[a[2]][1] = "V"
      [] n \in {"l.get", "l.find", "l.fv", "l.has"} -> Exists(st, a[2])
      [] n = "k.kind" -> IsV(st, a[2])
      [] n = "c.use" -> Exists(st, a[2])
      [] n = "c.eq" -> Exists(st, a[2]) /\ Exists(st, a[3])
      [] n = "c.info" -> IsA(st, a[2]) \/ IsO(st, a[2])
      [] OTHER -> FALSE

(***************************************************************************)
(* The effect of a call.                                                      *)
(***************************************************************************)
\* An access that needs a container of this kind, converting an empty value: f gives <<value after, result>>.
Mut(st, h, kind, F(_)) ==
    LET x == At(st, h) IN
    IF ~CanBe(x, kind) THEN <<st, Thr>>
    ELSE LET r == F(Viv(x, kind)) IN <<Set(st, h, r[1]), r[2]>>

PushR(x, y)    == <<Arr(Append(x[2], y)), Val(y)>>
PutR(x, k, y)  == <<PutKey(x, k, y), <<"e", y, ~HasKey(x[2], k)>>>>
DelPosR(x, i)  == IF HasPos(x, i) THEN <<DelPos(x, i), B(TRUE)>> ELSE <<x, B(FALSE)>>
DelKeyR(x, k)  == <<Obj(DelMember(x[2], k)), B(HasKey(x[2], k))>>
NewSlot(st, k, x) == [st EXCEPT ![k] = <<@[1], x>>]

\* Assignment through a subscript: the member is created first, then assigned.
KeyAssign(st, h, k, st1, x) ==
    <<Set(st1, Plus1(h, <<"k", k>>), x), Val(x)>>

Scalar(v, t) ==
    CASE t = "boolean" -> IF IsBool(v) THEN Val(v) ELSE Thr
      [] t \in {"string", "string_view", "op_string"} -> IF IsStr(v) THEN Val(v) ELSE Thr
      [] t \in {"integer", "op_int"} -> IF As(v, "i") = <<>> THEN Thr ELSE Val(As(v, "i")[1])
      [] t = "long_long" -> IF As(v, "l") = <<>> THEN Thr ELSE Val(As(v, "l")[1])
      [] t = "double" -> IF IsNum(v) THEN Ok ELSE Thr
      [] t \in {"null", "monostate"} -> IF IsNull(v) THEN Ok ELSE Thr

ApplyV(st, a) ==
    LET n == a[1]  h == a[2]  x == At(st, h) IN
    CASE n = "v.copy"  -> <<CopyTo(st, h, a[3]), Ok>>
      [] n = "v.move"  -> <<MoveTo(st, h, a[3], AnyV), Ok>>
      [] n = "v.swap"  -> <<Swap(st, h, a[3]), Ok>>
      [] n = "v.lit"   -> <<Set(st, h, a[3]), Ok>>
      [] n = "v.clear" -> <<Set(st, h, Null), Ok>>
      [] n = "v.fromA" -> <<IF a[4] = "c" THEN CopyTo(st, h, a[3]) ELSE MoveTo(st, h, a[3], AnyA), Ok>>
      [] n = "v.fromO" -> <<IF a[4] = "c" THEN CopyTo(st, h, a[3]) ELSE MoveTo(st, h, a[3], AnyO), Ok>>
      [] n = "v.asA"   -> Mut(st, h, "a", LAMBDA y : <<y, Val(y)>>)
      [] n = "v.asO"   -> Mut(st, h, "o", LAMBDA y : <<y, Val(y)>>)
      [] n \in {"v.casA", "v.toA"} -> <<st, IF IsArr(x) THEN Val(x) ELSE Thr>>
      [] n \in {"v.casO", "v.toO"} -> <<st, IF IsObj(x) THEN Val(x) ELSE Thr>>
      [] n = "v.scalar" -> <<st, Scalar(x, a[3])>>
      [] n = "v.kidx"  -> Mut(st, h, "o", LAMBDA y : <<WithKey(y, a[3]), Val(GetKey(WithKey(y, a[3]), a[3]))>>)
      [] n = "v.kset"  -> Mut(st, h, "o", LAMBDA y : <<PutKey(y, a[3], a[4]), Val(a[4])>>)
      [] n = "v.kcopy" -> IF ~CanBe(x, "o") THEN <<st, Thr>>
                          ELSE LET st1 == VKey(st, h, a[3]) IN KeyAssign(st, h, a[3], st1, At(st1, a[4]))
      [] n = "v.kmove" -> IF ~CanBe(x, "o") THEN <<st, Thr>>
                          ELSE LET st1 == VKey(st, h, a[3]) y == At(st1, a[4]) IN
                               <<MoveTo(st1, Plus1(h, <<"k", a[3]>>), a[4], AnyV), Val(y)>>
      [] n = "v.iidx"  -> <<st, IF IsArr(x) THEN Val(ElemOr(x, a[3])) ELSE Thr>>
      [] n = "v.ciidx" -> <<st, IF IsArr(x) THEN Val(ElemOr(x, a[3])) ELSE Thr>>
      [] n = "v.iset"  -> IF IsArr(x) THEN <<Set(st, h, SetPos(x, a[3], a[4])), Val(a[4])>> ELSE <<st, Thr>>
      [] n = "v.icopy" -> IF IsArr(x) THEN <<Set(st, h, SetPos(x, a[3], At(st, a[4]))), Val(At(st, a[4]))>> ELSE <<st, Thr>>
      [] n = "v.at"    -> <<st, IF ~IsObj(x) THEN Thr ELSE IF HasKey(x[2], a[3]) THEN Val(GetKey(x, a[3])) ELSE Exc>>
      [] n = "v.ati"   -> <<st, IF ~IsArr(x) THEN Thr ELSE IF HasPos(x, a[3]) THEN Val(ElemOr(x, a[3])) ELSE Exc>>
      [] n = "v.delk"  -> Mut(st, h, "o", LAMBDA y : DelKeyR(y, a[3]))
      [] n = "v.deli"  -> Mut(st, h, "a", LAMBDA y : DelPosR(y, a[3]))
      [] n = "v.empA"  -> Mut(st, h, "a", LAMBDA y : PushR(y, a[3]))
      [] n = "v.empAc" -> Mut(st, h, "a", LAMBDA y : PushR(y, At(st, a[3])))
      [] n = "v.empO"  -> Mut(st, h, "o", LAMBDA y : PutR(y, a[3], a[4]))
      [] n = "v.empOc" -> Mut(st, h, "o", LAMBDA y : PutR(y, a[3], At(st, a[4])))
      [] n = "v.plus"   -> Binary(st, h, a[3], a[4], "a", TRUE)
      [] n = "v.or"     -> Binary(st, h, a[3], a[4], "o", TRUE)
      [] n = "v.pluseq" -> Compound(st, h, a[3], a[4], "a", TRUE)
      [] n = "v.oreq"   -> Compound(st, h, a[3], a[4], "o", TRUE)
      \* inspects, serialises, copies, compares, and assigns the copy back
      [] n = "v.use"   -> <<st, <<"u", Dump(x), TRUE>>>>

ApplyA(st, a) ==
    LET n == a[1]  h == a[2]  x == At(st, h) IN
    CASE n = "a.push"  -> LET r == PushR(x, a[3]) IN <<Set(st, h, r[1]), r[2]>>
      [] n \in {"a.pushc"} -> LET r == PushR(x, At(st, a[3])) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "a.pushm" -> LET y == At(st, a[3]) st1 == Set(st, a[3], AnyV) IN <<Set(st1, h, Arr(Append(At(st1, h)[2], y))), Val(y)>>
      [] n \in {"a.pushA", "a.pushO"} ->
            LET y == At(st, a[3]) st1 == IF a[4] = "m" THEN Set(st, a[3], AnyOf(y[1])) ELSE st
            IN <<Set(st1, h, Arr(Append(At(st1, h)[2], y))), Val(y)>>
      [] n = "a.deli"  -> LET r == DelPosR(x, a[3]) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "a.delit" -> LET r == DelPosR(x, a[3]) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "a.clear" -> <<Set(st, h, EmptyArr), Ok>>
      [] n = "a.at"    -> <<st, IF HasPos(x, a[3]) THEN Val(ElemOr(x, a[3])) ELSE Exc>>
      [] n = "a.idx"   -> <<st, Val(ElemOr(x, a[3]))>>
      [] n \in {"a.iset", "a.itset"} -> <<Set(st, h, SetPos(x, a[3], a[4])), Val(a[4])>>
      [] n = "a.icopy" -> <<Set(st, h, SetPos(x, a[3], At(st, a[4]))), Val(At(st, a[4]))>>
      [] n = "a.info"  -> <<st, <<"i", Len(x[2]), x[2] = <<>>, x, Arr(Reverse(x[2]))>>>>
      [] n = "a.plus"  -> Binary(st, h, a[3], a[4], "a", FALSE)
      [] n = "a.pluseq" -> Compound(st, h, a[3], a[4], "a", FALSE)
      [] n = "a.copy"  -> <<CopyTo(st, h, a[3]), Ok>>
      [] n = "a.move"  -> <<MoveTo(st, h, a[3], AnyA), Ok>>
      [] n = "a.swap"  -> <<Swap(st, h, a[3]), Ok>>

ApplyO(st, a) ==
    LET n == a[1]  h == a[2]  x == At(st, h) IN
    CASE n = "o.emp"  -> LET r == PutR(x, a[3], a[4]) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "o.empc" -> LET r == PutR(x, a[3], At(st, a[4])) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "o.empm" -> LET y == At(st, a[4]) e == Plus1(h, <<"k", a[3]>>)
                             st1 == IF HasKey(x[2], a[3]) THEN MoveTo(st, e, a[4], AnyV) ELSE
                                    LET st2 == Set(st, a[4], AnyV) IN Set(st2, h, PutKey(At(st2, h), a[3], y))
                         IN <<st1, <<"e", y, ~HasKey(x[2], a[3])>>>>
      [] n = "o.kidx"  -> <<Set(st, h, WithKey(x, a[3])), Val(GetKey(WithKey(x, a[3]), a[3]))>>
      [] n = "o.kset"  -> <<Set(st, h, PutKey(x, a[3], a[4])), Val(a[4])>>
      [] n = "o.kcopy" -> LET st1 == Set(st, h, WithKey(x, a[3])) IN KeyAssign(st, h, a[3], st1, At(st1, a[4]))
      [] n = "o.kmove" -> LET st1 == Set(st, h, WithKey(x, a[3])) y == At(st1, a[4]) IN
                          <<MoveTo(st1, Plus1(h, <<"k", a[3]>>), a[4], AnyV), Val(y)>>
      [] n \in {"o.delk", "o.delit"} -> LET r == DelKeyR(x, a[3]) IN <<Set(st, h, r[1]), r[2]>>
      [] n = "o.clear" -> <<Set(st, h, EmptyObj), Ok>>
      [] n = "o.at"    -> <<st, IF HasKey(x[2], a[3]) THEN Val(GetKey(x, a[3])) ELSE Exc>>
      [] n = "o.itset" -> <<Set(st, h, PutKey(x, a[3], a[4])), Val(a[4])>>
      [] n = "o.info"  -> <<st, <<"i", Len(x[2]), x[2] = <<>>, Keys(x), x>>>>
      [] n = "o.or"    -> Binary(st, h, a[3], a[4], "o", FALSE)
      [] n = "o.oreq"  -> Compound(st, h, a[3], a[4], "o", FALSE)
      [] n = "o.copy"  -> <<CopyTo(st, h, a[3]), Ok>>
      [] n = "o.move"  -> <<MoveTo(st, h, a[3], AnyO), Ok>>
      [] n = "o.swap"  -> <<Swap(st, h, a[3]), Ok>>

\* Construction of a new object, which then replaces slot k.
ApplyN(st, a) ==
    LET n == a[1]  k == a[2] IN
    CASE n \in {"n.copyV", "n.copyA", "n.copyO"} -> <<NewSlot(st, k, At(st, a[3])), Ok>>
      [] n = "n.moveV" -> LET y == At(st, a[3]) IN <<NewSlot(Set(st, a[3], AnyV), k, y), Ok>>
      [] n = "n.moveA" -> LET y == At(st, a[3]) IN <<NewSlot(Set(st, a[3], AnyA), k, y), Ok>>
      [] n = "n.moveO" -> LET y == At(st, a[3]) IN <<NewSlot(Set(st, a[3], AnyO), k, y), Ok>>
      [] n \in {"n.fromA", "n.fromO"} ->
             LET y == At(st, a[3]) IN <<NewSlot(IF a[4] = "m" THEN Set(st, a[3], AnyOf(y[1])) ELSE st, k, y), Ok>>
      [] n = "n.sized" -> <<NewSlot(st, k, Arr([i \in 1..a[3] |-> Null])), Ok>>
      [] n \in {"n.listA", "n.seqA"} -> <<NewSlot(st, k, Arr(a[3])), Ok>>
      [] n \in {"n.listO", "n.listV", "n.mapO"} -> <<NewSlot(st, k, Obj(MembersFirstWins(a[3]))), Ok>>

ApplyL(st, a) ==
    LET n == a[1]  x == At(st, a[2]) IN
    CASE n = "l.get"  -> <<st, Val(GetOr(x, a[3], a[4], a[5]))>>
      [] n = "l.find" -> <<st, Find(x, a[3], a[4])>>
      [] n = "l.fv"   -> <<st, LET f == Follow(x, <<a[3]>>) IN IF f = <<>> THEN <<"none">> ELSE Val(f[1])>>
      [] n = "l.has"  -> <<st, B(HasStep(x, a[3]))>>

ApplyC(st, a) ==
    LET n == a[1]  x == At(st, a[2]) IN
    CASE n = "c.use"  -> <<st, <<"u", Dump(x), TRUE>>>>
      [] n = "c.eq"   -> <<st, B(ValEq(x, At(st, a[3])))>>
      [] n = "c.info" -> <<st, IF IsArr(x) THEN <<"i", Len(x[2]), x[2] = <<>>, x, Arr(Reverse(x[2]))>> ELSE <<"i", Len(x[2]), x[2] = <<>>, Keys(x), x>>>>

RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecText(n \div 10), 48 + (n % 10))

(***************************************************************************)
(* How a value describes itself.                                             *)
(***************************************************************************)
KindName(v) == CASE v[1] = "z" -> <<110, 117, 108, 108>>            \* null
                 [] v[1] = "b" -> <<98, 111, 111, 108, 101, 97, 110>>    \* boolean
                 [] v[1] = "n" -> <<110, 117, 109, 98, 101, 114>>     \* number
                 [] v[1] = "s" -> <<115, 116, 114, 105, 110, 103>>     \* string
                 [] v[1] = "a" -> <<97, 114, 114, 97, 121>>        \* array
                 [] v[1] = "o" -> <<111, 98, 106, 101, 99, 116>>      \* object
Cut(t, n) == IF Len(t) > n THEN SubSeq(t, 1, n) \o <<46, 46, 46>> ELSE t
Describe(v) == <<116, 121, 112, 101, 61>> \o KindName(v) \o                                       \* type=
               (CASE v[1] = "z" -> <<>>
                  [] v[1] \in {"b", "n", "s"} -> <<44, 32, 118, 97, 108, 117, 101, 61>> \o Cut(Dump(v), 100)   \* , value=
                  [] OTHER -> <<44, 32, 115, 105, 122, 101, 61>> \o DecText(Len(v[2])))                        \* , size=
ApplyK(st, a) == LET x == At(st, a[2]) IN <<st, <<"k", KindName(x), Empty(x), Describe(x)>>>>

Group(a) == CASE a[1] \in {"v.copy", "v.move", "v.swap", "v.lit", "v.clear", "v.fromA", "v.fromO", "v.asA", "v.asO", "v.casA", "v.casO", "v.toA", "v.toO",
                           "v.scalar", "v.kidx", "v.kset", "v.kcopy", "v.kmove", "v.iidx", "v.ciidx", "v.iset", "v.icopy", "v.at", "v.ati", "v.delk",
                           "v.deli", "v.empA", "v.empAc", "v.empO", "v.empOc", "v.plus", "v.or", "v.pluseq", "v.oreq", "v.use"} -> "v"
              [] a[1] \in {"l.get", "l.find", "l.fv", "l.has"} -> "l"
              [] a[1] \in {"c.use", "c.eq", "c.info"} -> "c"
              [] a[1] \in KindOps -> "k"
              [] a[1] \in {"n.copyV", "n.copyA", "n.copyO", "n.moveV", "n.moveA", "n.moveO", "n.fromA", "n.fromO", "n.sized", "n.listA", "n.seqA",
                           "n.listO", "n.listV", "n.mapO"} -> "n"
              [] a[1] \in {"a.push", "a.pushc", "a.pushm", "a.pushA", "a.pushO", "a.deli", "a.delit", "a.clear", "a.at", "a.idx", "a.iset", "a.itset",
                           "a.icopy", "a.info", "a.plus", "a.pluseq", "a.copy", "a.move", "a.swap"} -> "a"
              [] OTHER -> "o"
Apply(st, a) == CASE Group(a) = "v" -> ApplyV(st, a) [] Group(a) = "a" -> ApplyA(st, a) [] Group(a) = "o" -> ApplyO(st, a)
                  [] Group(a) = "n" -> ApplyN(st, a) [] Group(a) = "l" -> ApplyL(st, a) [] Group(a) = "c" -> ApplyC(st, a)
                  [] Group(a) = "k" -> ApplyK(st, a)

(***************************************************************************)
(* Comparison with an observation: unspecified parts match any valid value.   *)
(***************************************************************************)
RECURSIVE MatchV(_, _)
MatchV(e, v) ==
    CASE e[1] = "?" -> IF Len(e) = 1 THEN TRUE ELSE v[1] = e[2]
      [] e[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(e[2]) /\ \A i \in 1..Len(e[2]) : MatchV(e[2][i], v[2][i])
      [] e[1] = "o" -> v[1] = "o" /\ Len(v[2]) = Len(e[2]) /\ \A i \in 1..Len(e[2]) : e[2][i][1] = v[2][i][1] /\ MatchV(e[2][i][2], v[2][i][2])
      [] OTHER -> e = v
MatchStore(e, o) == Len(e) = Len(o) /\ \A k \in 1..Len(e) : e[k][1] = o[k][1] /\ MatchV(e[k][2], o[k][2])
MatchResult(e, o) ==
    CASE e[1] = "exc" -> o[1] \in {"jexc", "sexc"}
      [] e[1] = "v" -> o[1] = "v" /\ MatchV(e[2], o[2])
      [] OTHER -> e = o
\* Every value in an observed store is valid.
RECURSIVE ValidV(_)
ValidV(v) == CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : ValidV(v[2][i])
               [] v[1] = "o" -> \A i \in 1..Len(v[2]) : ValidV(v[2][i][2])
               [] OTHER -> v[1] \in {"z", "b", "n", "s"}
ValidStore(o) == \A k \in 1..Len(o) : ValidV(o[k][2]) /\ (o[k][1] = "A" => o[k][2][1] = "a") /\ (o[k][1] = "O" => o[k][2][1] = "o")
===============================================================================
