------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Exhaustive exploration of small values and of their serialised forms.    *)
(*                                                                         *)
(* A state is a value.  Values grow by one part at a time (an element        *)
(* appended to, or a member added to, any container inside), up to MaxNodes  *)
(* parts, so every value over the given scalars and names up to that size    *)
(* is visited.  In each state the serialisations are computed, the round     *)
(* trips through the specified parser are checked as invariants, and the     *)
(* value is emitted together with the texts that the implementation must     *)
(* produce.                                                                  *)
(***************************************************************************)
EXTENDS JsonParser, JsonText, TLC, Json, IOUtils

CONSTANTS MaxNodes, PairBytes, Emit

Scalars == { Null, Bool(TRUE), Bool(FALSE), Num(<<48>>), Num(<<45, 49, 46, 53, 101, 43, 51>>),
             Str(<<>>), Str(<<97>>), Str(<<34>>), Str(<<0>>), Str(<<92, 110>>), Str(<<195, 169>>) }
Names   == { <<>>, <<97>>, <<97, 97>>, <<98>>, <<34, 92>>, <<255>> }
Leaves  == Scalars \cup {EmptyArr, EmptyObj}

\* All values obtained by adding one part x (under a new name k, in objects) somewhere inside v.
RECURSIVE Grown(_)
Grown(v) ==
    CASE v[1] = "a" -> { Arr(Append(v[2], x)) : x \in Leaves }
                       \cup UNION { { Arr([v[2] EXCEPT ![i] = y]) : y \in Grown(v[2][i]) } : i \in 1..Len(v[2]) }
      [] v[1] = "o" -> { Obj(PutMember(v[2], k, x)) : k \in { n \in Names : ~HasKey(v[2], n) }, x \in Leaves }
                       \cup UNION { { Obj([v[2] EXCEPT ![i] = <<v[2][i][1], y>>]) : y \in Grown(v[2][i][2]) } : i \in 1..Len(v[2]) }
      [] OTHER -> {}

VARIABLE v

\* Every byte, and every pair from PairBytes, as a string and as a name.
Texts == { <<b>> : b \in 0..255 } \cup { <<b, c>> : b \in PairBytes, c \in PairBytes }
         \cup { <<97, b, 98>> : b \in 0..255 }
Init == v \in Leaves \cup { Str(t) : t \in Texts } \cup { Arr(<<Str(t)>>) : t \in Texts }
             \cup { Obj(<<<<t, Null>>>>) : t \in Texts } \cup { Obj(<<<<t, Str(t)>>>>) : t \in { <<b>> : b \in 0..255 } }
             \cup { Arr(<<Str(<<b>>), Str(<<b, b>>)>>) : b \in 0..255 }

Small(x) == NodeCount(x) < MaxNodes
IsSeed(x) == \/ x \in Leaves
             \/ x[1] = "a" /\ \A j \in 1..Len(x[2]) : x[2][j] \in Leaves \/ x[2][j][1] \in {"a", "o"}
             \/ x[1] = "o" /\ \A j \in 1..Len(x[2]) : x[2][j][1] \in Names /\ (x[2][j][2] \in Leaves \/ x[2][j][2][1] \in {"a", "o"})
Next == IsSeed(v) /\ Small(v) /\ v' \in Grown(v)
Spec == Init /\ [][Next]_v

Root(x) == x[1] \in {"a", "o"}
Widths == <<0, 1, 2, 4, 5>>

\* Removal of the whitespace that stands outside strings.
Stripped(t) ==
    FoldLeft(LAMBDA a, b :
        IF a.q THEN [o |-> Append(a.o, b), q |-> (a.e \/ b # 34), e |-> (~a.e /\ b = 92)]
        ELSE IF b \in {32, 10, 13, 9} THEN a
        ELSE [o |-> Append(a.o, b), q |-> b = 34, e |-> FALSE], [o |-> <<>>, q |-> FALSE, e |-> FALSE], t).o

WellFormedInv  == WellFormed(v)
RoundTrip      == Root(v) => Parse(Dump(v), FALSE) = <<"acc", v>>
RoundTripC     == Root(v) => Parse(Dump(v), TRUE) = <<"acc", v>>
PrettyTrip     == Root(v) => \A k \in 1..Len(Widths) : Parse(Format(v, Widths[k]), FALSE) = <<"acc", v>>
WhitespaceOnly == \A k \in 1..Len(Widths) : Stripped(Format(v, Widths[k])) = Dump(v)
NoWhitespace   == Stripped(Dump(v)) = Dump(v)

Vec(x) == [op |-> "d", full |-> 1, v |-> x, ws |-> Widths,
           exp |-> [c |-> <<Dump(x)>>,
                    f |-> [k \in 1..Len(Widths) |-> <<Widths[k], <<Format(x, Widths[k])>>, IF Root(x) THEN <<"acc", x>> ELSE <<"rej">>>>],
                    p |-> IF Root(x) THEN <<"acc", x>> ELSE <<"rej">>,
                    eq |-> IF Root(x) THEN <<"eq">> ELSE <<"none">>,
                    same |-> TRUE]]
Emitted == Emit => PrintT(ToJson(Vec(v)))
===============================================================================
