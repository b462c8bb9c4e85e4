------------------------------ MODULE JsonFloat ------------------------------
(***************************************************************************)
(* Number tokens as exact decimals, and what reading them as a binary         *)
(* floating-point type can and cannot do.  A decimal is                       *)
(*     <<"f", negative, digits, exponent>>  =  (-) digits * 10^exponent         *)
(* with neither leading nor trailing zero digits (zero is <<48>>, 0).          *)
(***************************************************************************)
EXTENDS FloatLimits, TLC

\* ---- the number grammar
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN SkipDigits(t, i + 1) ELSE i
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
\* The four parts of a number token, or <<>> when t is none: integer digits, fraction digits, exponent sign, exponent digits.
NumParts(t) ==
    LET a == IF At(t, 1) = 45 THEN 2 ELSE 1
        b == SkipDigits(t, a)
        c == IF At(t, b) = 46 THEN SkipDigits(t, b + 1) ELSE b
        hase == At(t, c) \in {69, 101}
        d == IF ~hase THEN c ELSE IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
        e == IF hase THEN SkipDigits(t, d) ELSE c
    IN  IF \/ b = a \/ (b > a + 1 /\ t[a] = 48)
           \/ (c # b /\ c = b + 1)
           \/ (hase /\ e = d)
           \/ e # Len(t) + 1
        THEN <<>>
        ELSE << SubSeq(t, a, b - 1), IF c = b THEN <<>> ELSE SubSeq(t, b + 1, c - 1), hase /\ At(t, c + 1) = 45, IF hase THEN SubSeq(t, d, e - 1) ELSE <<>> >>
IsNumberToken(t) == NumParts(t) # <<>>

RECURSIVE DigitsVal(_, _)
DigitsVal(ds, acc) == IF ds = <<>> THEN acc ELSE DigitsVal(Tail(ds), acc * 10 + ds[1] - 48)
RECURSIVE StripLead(_)
StripLead(ds) == IF Len(ds) > 0 /\ ds[1] = 48 THEN StripLead(Tail(ds)) ELSE ds
RECURSIVE TrailZeros(_, _)
TrailZeros(ds, i) == IF i > 0 /\ ds[i] = 48 THEN TrailZeros(ds, i - 1) ELSE i
\* Exponents beyond a hundred million all mean the same here.
ExpVal(ds) == LET s == StripLead(ds) IN IF Len(s) > 8 THEN 100000000 ELSE DigitsVal(s, 0)

NormDec(neg, ds0, exp) ==
    LET ds == StripLead(ds0)
        n  == TrailZeros(ds, Len(ds))
    IN  IF n = 0 THEN <<"f", neg, <<48>>, 0>> ELSE <<"f", neg, SubSeq(ds, 1, n), exp + Len(ds) - n>>
\* The decimal that a number token denotes.
DecimalOf(t) ==
    LET p == NumParts(t)
        e == ExpVal(p[4])
    IN  NormDec(Neg(t), p[1] \o p[2], (IF p[3] THEN -e ELSE e) - Len(p[2]))

IsZeroDec(d) == d[3] = <<48>>
Pos(d) == Len(d[3]) + d[4]

\* Magnitudes <<pos, digits>>
MagLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ BytesLt(a[2], b[2]))
MagOf(d) == <<Pos(d), d[3]>>

\* Rounds to n digits, half up.
RECURSIVE Incr(_, _)
Incr(ds, i) == IF i = 0 THEN <<49>> \o ds ELSE IF ds[i] = 57 THEN Incr([ds EXCEPT ![i] = 48], i - 1) ELSE [ds EXCEPT ![i] = @ + 1]
RoundDec(d, n) ==
    IF Len(d[3]) <= n THEN d
    ELSE LET h == SubSeq(d[3], 1, n) IN
         NormDec(d[2], IF d[3][n + 1] >= 53 THEN Incr(h, n) ELSE h, d[4] + Len(d[3]) - n)

\* ---- the types: how many digits any decimal survives with, and the limits
FDigits(k) == CASE k = "f32" -> 6 [] k = "f64" -> 15 [] k = "f80" -> 18
FOver(k)   == CASE k = "f32" -> Over32 [] k = "f64" -> Over64 [] k = "f80" -> Over80
FUnder(k)  == CASE k = "f32" -> Under32 [] k = "f64" -> Under64 [] k = "f80" -> Under80
\* From here on decimals of FDigits(k) digits are told apart.
FNormal(k) == CASE k = "f32" -> <<-36, <<49>>>> [] k = "f64" -> <<-306, <<49>>>> [] k = "f80" -> <<-4930, <<49>>>>

\* A number that can be read: nearest value neither infinite nor, unless it is zero, zero.
FReadable(k, t) == IsNumberToken(t) /\ LET d == DecimalOf(t) IN
                   IsZeroDec(d) \/ (MagLt(MagOf(d), FOver(k)) /\ MagLt(FUnder(k), MagOf(d)))
\* What is read, where a decimal of at most FDigits(k) digits says it.
FExact(k, d) == IsZeroDec(d) \/ (Len(d[3]) <= FDigits(k) /\ MagLt(FNormal(k), MagOf(d)))
FRead(k, t) == LET d == DecimalOf(t) IN IF FExact(k, d) THEN d ELSE <<"?">>
\* Whether a token may be how the value shown as decimal x is written.
\* (a token that ends right in the middle may itself be rounded up)
FWritten(k, x, t) == IsNumberToken(t) /\ LET d == DecimalOf(t)
                                             n == FDigits(k)
                                         IN  \/ RoundDec(d, n) = x
                                             \/ Len(d[3]) = n + 1 /\ d[3][n + 1] = 53 /\ NormDec(d[2], SubSeq(d[3], 1, n), d[4] + 1) = x

\* A token for a decimal
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
DecText(d) == (IF d[2] THEN <<45>> ELSE <<>>) \o d[3] \o (IF d[4] = 0 THEN <<>> ELSE <<101>> \o (IF d[4] < 0 THEN <<45>> \o NatText(-d[4]) ELSE NatText(d[4])))
===============================================================================
