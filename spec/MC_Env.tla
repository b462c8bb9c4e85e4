-------------------------------- MODULE MC_Env --------------------------------
(***************************************************************************)
(* All histories of up to MaxSteps steps: changes of the environment between     *)
(* writing, holding, showing and reading numbers.  Independent: the results do    *)
(* not differ from those of the same history without the changes.               *)
(***************************************************************************)
EXTENDS Env, Json, SequencesExt

CONSTANTS MaxSteps, MaxChanges, CLocales

Dec(neg, ds, e) == <<"f", neg, D(ds), e>>
\* exactly representable, with at most six decimals
Writes == { <<"w", "f32", Dec(FALSE, <<5>>, -1)>>, <<"w", "f32", Dec(TRUE, <<1,2,3,4,5,6,7,5>>, -1)>>,
            <<"w", "f64", Dec(FALSE, <<1,2,3,4,5,6,7,5>>, -1)>>, <<"w", "f64", Dec(TRUE, <<2,5>>, -2)>>, <<"w", "f64", Dec(FALSE, <<1>>, 21)>>,
            <<"w", "f64", Dec(FALSE, <<1,2,3,4,5,6,7,8,9,1,2,5>>, -3)>>, <<"w", "f64", Dec(FALSE, <<0>>, 0)>>,
            <<"w", "f80", Dec(FALSE, <<1,2,3,4,5,6,7,8,9,0,1,2,5>>, -2)>>, <<"w", "f80", Dec(TRUE, <<7>>, 6)>>,
            <<"wi", "i32", D(<<1,2,3,4,5,6,7>>)>>, <<"wi", "i32", <<45>> \o D(<<2,1,4,7,4,8,3,6,4,8>>)>>,
            <<"wi", "i64", D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)>>, <<"wi", "u64", D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)>> }
Tokens == { <<"t", D(<<1,2,3,4>>) \o <<46>> \o D(<<5>>)>>, <<"t", <<45>> \o D(<<0>>) \o <<46>> \o D(<<5>>)>>, <<"t", D(<<1>>) \o <<46>> \o D(<<5>>) \o <<101>> \o D(<<3>>)>>,
            <<"t", D(<<1>>) \o <<69, 45>> \o D(<<2>>)>>, <<"t", D(<<0>>) \o <<46>> \o D(<<0,0,0,0,0,1>>)>>, <<"t", D(<<1,2,3,4,5,6,7>>)>>,
            <<"t", D(<<1>>) \o <<101>> \o D(<<4,0,0>>)>>, <<"t", D(<<1>>) \o <<46>> \o D(<<5>>) \o <<101>> \o D(<<4,0,0>>)>>, <<"t", D(<<1>>) \o <<46>> \o D(<<5>>) \o <<101>> \o D(<<5,0,0,0>>)>>,
            <<"t", D(<<1>>) \o <<46>> \o D(<<0>>) \o <<101, 45>> \o D(<<4,0,0>>)>>, <<"t", D(<<1>>) \o <<46>> \o D(<<2,5>>) \o <<101, 45>> \o D(<<5,0,0,0>>)>>,
            <<"t", <<45>> \o D(<<0>>) \o <<46>> \o D(<<0>>)>>, <<"t", D(<<3>>) \o <<46>> \o D(<<0>>)>>, <<"t", <<45>> \o D(<<1>>)>>,
            <<"t", D([i \in 1..40 |-> IF i = 1 THEN 9 ELSE i % 10]) \o <<46>> \o D([i \in 1..40 |-> i % 10])>>,
            <<"t", D(<<3,4,0,2,8,2,3,5,6>>) \o [i \in 1..30 |-> 48] \o <<46>> \o D(<<7,5>>)>> }
Kinds == {"f32", "f64", "f80", "i32", "i64", "u64"}
EnvSteps == { <<"c", l>> : l \in CLocales } \cup { <<"cpp", l>> : l \in {"classic", "punct", "both"} } \cup { <<"err", n>> : n \in {"0", "1", "2"} }

VARIABLES env, held, hist
vars == <<env, held, hist>>
Zero == <<"tok", <<48>>>>
Init == env = [c |-> "C", cpp |-> "classic", err |-> "0"] /\ held = Zero /\ hist = <<>>

NChanges == Len(SelectSeq(hist, LAMBDA s : Changes(s)))
Change(s) == /\ NChanges < MaxChanges
             /\ env' = CASE s[1] = "c" -> [env EXCEPT !.c = s[2]] [] s[1] = "cpp" -> [env EXCEPT !.cpp = s[2]] [] OTHER -> [env EXCEPT !.err = s[2]]
             /\ env' # env /\ held' = held
Call(s) == held' = Held(s, held) /\ env' = env
\* nothing is gained by writing over what was never looked at
Useful(s) == IF hist = <<>> THEN TRUE ELSE ~(s[1] \in {"w", "wi", "t"} /\ hist[Len(hist)][1] \in {"w", "wi", "t"})
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E s \in EnvSteps : Change(s) /\ hist' = Append(hist, s)
           \/ \E s \in Writes \cup Tokens \cup {<<"dump">>} \cup { <<"r", k>> : k \in Kinds } : Useful(s) /\ Call(s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_vars

\* The number held by a history, computed without the environment's part in it
RECURSIVE HeldBy(_, _)
HeldBy(h, x) == IF h = <<>> THEN x ELSE HeldBy(Tail(h), Held(h[1], x))
Independent == held = HeldBy(SelectSeq(hist, LAMBDA s : ~Changes(s)), Zero)
\* every number can be read as some type or is out of the range of all
Sensible == /\ held[1] = "tok" => IsNumberToken(held[2])
            /\ held[1] = "dec" => \A k \in Floats : ReadResult(held, k) # <<"jexc">>
            /\ \A k \in Kinds : ReadResult(held, k)[1] \in {"ok", "jexc", "some", "any"}
Emitted == (hist # <<>> /\ ~Changes(hist[Len(hist)])) => PrintT(ToJson([op |-> "env", h |-> hist]))
===============================================================================
