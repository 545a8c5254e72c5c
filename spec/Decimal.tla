------------------------------ MODULE Decimal ------------------------------
(* Natural numbers of any size as decimal digits (bytes 48..57), and division and product by small numbers. *)
EXTENDS Integers, Sequences
Zero == <<48>>
IsNat(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Trim(Tail(s)) ELSE s

RECURSIVE AddRev(_, _, _, _)
\* digits from the right, k: how many are done, c: carry
AddRev(a, b, k, c) ==
  IF k >= Len(a) /\ k >= Len(b) /\ c = 0 THEN <<>>
  ELSE LET d(s) == IF k < Len(s) THEN s[Len(s) - k] - 48 ELSE 0
           t == d(a) + d(b) + c
       IN Append(AddRev(a, b, k + 1, t \div 10), 48 + (t % 10))
Add(a, b) == Trim(<<48>> \o AddRev(a, b, 0, 0))

RECURSIVE MulRev(_, _, _, _)
MulRev(a, m, k, c) ==
  IF k >= Len(a) /\ c = 0 THEN <<>>
  ELSE LET t == (IF k < Len(a) THEN (a[Len(a) - k] - 48) * m ELSE 0) + c
       IN Append(MulRev(a, m, k + 1, t \div 10), 48 + (t % 10))
Mul(a, m) == Trim(<<48>> \o MulRev(a, m, 0, 0))

RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, m, i, r) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == r * 10 + a[i] - 48 IN <<48 + (t \div m)>> \o DivFrom(a, m, i + 1, t % m)
\* rounded down
Div(a, m) == Trim(DivFrom(a, m, 1, 0))

RECURSIVE ValueOf(_)
\* of small numbers only
ValueOf(a) == IF a = <<>> THEN 0 ELSE 10 * ValueOf(SubSeq(a, 1, Len(a) - 1)) + a[Len(a)] - 48
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
=============================================================================
