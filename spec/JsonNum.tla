-------------------------------- MODULE JsonNum --------------------------------
(***************************************************************************)
(* Number tokens.  Integers are compared as digit sequences, because TLC's   *)
(* own integers have 32 bits.                                               *)
(***************************************************************************)
EXTENDS JsonValue

IsDigit(b) == b \in 48..57
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])

\* The digits of a plain decimal integer  -? ( 0 | [1-9][0-9]* ), without the sign.
Neg(t)      == Len(t) > 0 /\ t[1] = 45
Mag(t)      == IF Neg(t) THEN Tail(t) ELSE t
IsPlainInt(t) == LET m == Mag(t) IN Len(m) > 0 /\ AllDigits(m) /\ (Len(m) > 1 => m[1] # 48)

\* Unsigned comparison of digit sequences without leading zeroes.
MagLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~BytesLt(b, a))

D(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
\* <<magnitude of the minimum, maximum>> of the integer types
Int8Range   == <<D(<<1,2,8>>), D(<<1,2,7>>)>>
Int16Range  == <<D(<<3,2,7,6,8>>), D(<<3,2,7,6,7>>)>>
Int32Range  == <<D(<<2,1,4,7,4,8,3,6,4,8>>), D(<<2,1,4,7,4,8,3,6,4,7>>)>>
Int64Range  == <<D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)>>
UInt8Range  == <<D(<<0>>), D(<<2,5,5>>)>>
UInt16Range == <<D(<<0>>), D(<<6,5,5,3,5>>)>>
UInt32Range == <<D(<<0>>), D(<<4,2,9,4,9,6,7,2,9,5>>)>>
UInt64Range == <<D(<<0>>), D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)>>

Fits(t, range) == IsPlainInt(t) /\ MagLe(Mag(t), IF Neg(t) THEN range[1] ELSE range[2])
\* The text of the integer that a plain decimal token denotes.
IntText(t) == IF Mag(t) = <<48>> THEN <<48>> ELSE t
===============================================================================
