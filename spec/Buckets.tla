------------------------------ MODULE Buckets ------------------------------
(***************************************************************************)
(* The bucket builders. Arguments of linear and exponential builders are   *)
(* exact binary fractions [m |-> mantissa, e |-> scale], m * 2^e, so that  *)
(* the documented bounds are exact too; explicit bounds are limbs.         *)
(***************************************************************************)
EXTENDS Bytes

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Pow2(k) == 2 ^ k
Abs(n) == IF n < 0 THEN -n ELSE n

\* m * 2^e (|m| < 2^30, a normal number) as limbs
FloatOf(x) ==
  IF x.m = 0 THEN <<0, 0, 0, 0>>
  ELSE LET a == Abs(x.m)
           b == BitLen(a)
           ex == b - 1 + x.e + 1023
           f == a - Pow2(b - 1)                 \* b - 1 bits of fraction, most significant first
           \* bits hi..lo (counted from the top of the 52) of the fraction
           Bit(i) == IF i > b - 1 THEN 0 ELSE (f \div Pow2(b - 1 - i)) % 2
           Field[lo \in 1..53, hi \in 0..52] == IF hi < lo THEN 0 ELSE 2 * Field[lo, hi - 1] + Bit(hi)
       IN  <<(IF x.m < 0 THEN 32768 ELSE 0) + ex * 16 + Field[1, 4], Field[5, 20], Field[21, 36], Field[37, 52]>>

RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)

\* bring two fractions to one scale
Plus(x, y) ==
  LET e == IF x.e < y.e THEN x.e ELSE y.e IN [m |-> x.m * Pow2(x.e - e) + y.m * Pow2(y.e - e), e |-> e]

Linear(n, start, width) == [i \in 1..n |-> FloatOf(Plus(start, [m |-> (i - 1) * width.m, e |-> width.e]))]
Exponential(n, start, factor) ==
  [i \in 1..n |-> FloatOf([m |-> start.m * PowI(factor.m, i - 1), e |-> start.e + (i - 1) * factor.e])]
Increasing(l) == \A i \in 1..(Len(l) - 1) : FLess(l[i], l[i + 1])

\* within k representable numbers of each other (k < 65536): for arguments that are not exact, where any order of
\* evaluation is faithful, the bounds are compared with the exact ones rounded (c.near)
Close(x, y, k) ==
  \/ FSame(x, y)
  \/ /\ x[1] = y[1] /\ x[2] = y[2]
     /\ \/ x[3] = y[3] /\ Abs(x[4] - y[4]) <= k
        \/ Abs(x[3] - y[3]) = 1 /\ Abs((x[3] - y[3]) * 65536 + x[4] - y[4]) <= k

Accepts(c) ==
  CASE "near" \in DOMAIN c -> TRUE
    [] c.ctor = "lin"  -> c.b.m > 0
    [] c.ctor = "exp"  -> c.a.m > 0 /\ FLess(<<16368, 0, 0, 0>>, FloatOf(c.b))
    [] c.ctor = "with" -> Increasing(c.l)
Bounds(c) ==
  CASE c.ctor = "lin"  -> Linear(c.n, c.a, c.b)
    [] c.ctor = "exp"  -> Exponential(c.n, c.a, c.b)
    [] c.ctor = "with" -> c.l
=============================================================================
