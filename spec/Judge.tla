--------------------------------- MODULE Judge ---------------------------------
(***************************************************************************)
(* Checks recorded responses of the implementation against the             *)
(* specification, one trace line per initial state.  Every line carries the *)
(* request and, in `obs`, what the public API of the real library returned. *)
(* IOEnv.TRACE names the file, IOEnv.PROP the property being decided.       *)
(***************************************************************************)
EXTENDS JsonParser, JsonText, JsonEq, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

(***************************************************************************)
(* C01, C02, C03: parsing from memory, strict (s) and with comments (c).    *)
(***************************************************************************)
Decided(r)  == r[1] \in {"acc", "rej"}
SameVerdict(r, p) == Decided(r) /\ (p[1] = "unspec" \/ r[1] = p[1])
\* Deeply nested values are recorded as flat lists of events.
IsFlat(t) == "flat" \in DOMAIN t
SameValue(t, r, p) == (r[1] = "acc" /\ p[1] = "acc") => r[2] = (IF IsFlat(t) THEN Flat(p[2]) ELSE p[2])

ParseOK(t) ==
    CASE Prop = "C01" -> SameVerdict(t.obs.s, Parse(t.doc, FALSE))
      [] Prop = "C02" -> /\ SameValue(t, t.obs.s, Parse(t.doc, FALSE))
                         /\ SameValue(t, t.obs.c, Parse(t.doc, TRUE))
      [] Prop = "C03" -> LET c == Parse(t.doc, TRUE) s == Parse(t.doc, FALSE) IN
                         /\ SameVerdict(t.obs.c, c) /\ SameValue(t, t.obs.c, c)
                         /\ (c[1] = "acc" /\ s[1] = "rej") => t.obs.s[1] = "rej"
                         /\ (c[1] = "acc" /\ s[1] = "acc") => c[2] = s[2]
      [] OTHER -> LET c == Parse(t.doc, TRUE) s == Parse(t.doc, FALSE) IN
                  SameVerdict(t.obs.c, c) /\ SameValue(t, t.obs.c, c) /\ SameVerdict(t.obs.s, s) /\ SameValue(t, t.obs.s, s)

(***************************************************************************)
(* C04: all ways of presenting the same bytes have one outcome.             *)
(***************************************************************************)
OneOutcome(l) == /\ \A i \in 1..Len(l) : l[i][1] = l[1][1]
                 /\ l[1][1] # "exc"
VariantsOK(t) == OneOutcome(t.obs.s) /\ OneOutcome(t.obs.c)

(***************************************************************************)
(* C05: entry points.  `base` holds the results of parsing from memory.     *)
(***************************************************************************)
Bom == <<239, 187, 191>>
HasBom(t) == Len(t.obs.head) >= 3 /\ SubSeq(t.obs.head, 1, 3) = Bom
Base(t, name, jc) == t.obs.base[name \o (IF jc THEN "_c" ELSE "_s")]
EntryExpected(t, g) ==
    CASE g.e \in {"stream", "open"} -> Base(t, IF g.bom /\ HasBom(t) THEN "nobom" ELSE "full", g.jc).r
      [] g.e = "cstr"    -> Base(t, "cstr", g.jc).r
      [] g.e = "jvalue"  -> IF Base(t, "full", FALSE).k = "rej" THEN t.obs.nul ELSE Base(t, "full", FALSE).r
      [] g.e = "jarray"  -> IF Base(t, "full", FALSE).k = "a" THEN Base(t, "full", FALSE).r ELSE t.obs.ea
      [] g.e = "jobject" -> IF Base(t, "full", FALSE).k = "o" THEN Base(t, "full", FALSE).r ELSE t.obs.eo
      [] g.e = "missing" -> "rej"
EntriesOK(t) == \A i \in 1..Len(t.obs.got) : t.obs.got[i].r = EntryExpected(t, t.obs.got[i])

(***************************************************************************)
(* C06, C07, C08: serialisation.                                            *)
(***************************************************************************)
AllAre(l, x) == \A i \in 1..Len(l) : l[i] = x
Root(v) == v[1] \in {"a", "o"}
CompactOK(t, v) == AllAre(t.obs.c, Dump(v))
PrettyOK(t, v)  == \A i \in 1..Len(t.obs.f) : AllAre(t.obs.f[i][2], Format(v, t.obs.f[i][1]))
DumpOK(t) ==
    LET v == IF IsFlat(t) THEN Unflat(t.v) ELSE t.v IN       \* t.v is what the observations are compared with, flat or not
    CASE Prop = "C06" -> /\ CompactOK(t, v) /\ t.obs.same
                         /\ Root(v) => (t.obs.p = <<"acc", t.v>> /\ t.obs.eq = <<"eq">>)
      [] Prop = "C07" -> /\ PrettyOK(t, v) /\ t.obs.same
                         /\ Root(v) => \A i \in 1..Len(t.obs.f) : t.obs.f[i][3] = <<"acc", t.v>>
      [] OTHER -> CompactOK(t, v) /\ PrettyOK(t, v)

OK(t) ==
    CASE t.op = "p"  -> ParseOK(t)
      [] t.op = "pv" -> VariantsOK(t)
      [] t.op = "e"  -> EntriesOK(t)
      [] t.op = "d"  -> DumpOK(t)
      \* C15: equality
      [] t.op = "eq" -> t.obs = [j \in 1..Len(t.ws) |-> ValEq(t.v, t.ws[j])]

VARIABLES i, ph
Init == i \in 1..Len(Trace) /\ ph = "todo"
Next == ph = "todo" /\ i' = i /\ ph' = (IF OK(Trace[i]) THEN "ok" ELSE "bad")
Spec == Init /\ [][Next]_<<i, ph>>
Accepted == ph # "bad"
===============================================================================
