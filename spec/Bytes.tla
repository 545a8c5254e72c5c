------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255; 64-bit floats are four 16-bit limbs, most significant first. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
NameStart(c)  == IsAlpha(c) \/ c \in {95, 58}
NameChar(c)   == NameStart(c) \/ IsDigit(c)
LabelStart(c) == IsAlpha(c) \/ c = 95
LabelChar(c)  == LabelStart(c) \/ IsDigit(c)
ValidName(s)  == s # <<>> /\ NameStart(s[1]) /\ \A i \in DOMAIN s : NameChar(s[i])
ValidLabel(s) == s # <<>> /\ LabelStart(s[1]) /\ \A i \in DOMAIN s : LabelChar(s[i])

\* decimal digits of a natural number
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

--------------------------------------------------------------------------
(* IEEE 754 binary64 as limbs *)
Neg(x) == x[1] >= 32768
Mag(x) == <<x[1] % 32768, x[2], x[3], x[4]>>
Inf == <<32752, 0, 0, 0>>
IsNaN(x) == LET m == Mag(x) IN m[1] >= 32752 /\ m # Inf
IsZero(x) == Mag(x) = <<0, 0, 0, 0>>
LexLeq(a, b) ==
  \/ a = b
  \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* a <= b as numbers (false as soon as one of them is NaN)
FLeq(a, b) ==
  /\ ~IsNaN(a) /\ ~IsNaN(b)
  /\ CASE IsZero(a) /\ IsZero(b)  -> TRUE
       [] Neg(a) /\ ~Neg(b)       -> TRUE
       [] ~Neg(a) /\ Neg(b)       -> FALSE
       [] ~Neg(a) /\ ~Neg(b)      -> LexLeq(Mag(a), Mag(b))
       [] OTHER                   -> LexLeq(Mag(b), Mag(a))
FLess(a, b) == FLeq(a, b) /\ ~FLeq(b, a)
FEqual(a, b) == FLeq(a, b) /\ FLeq(b, a)
\* the same value read back: every NaN is alike
FSame(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))
=============================================================================
