------------------------------- MODULE Floats -------------------------------
(* Sums of the numbers a float gauge or the sum of a histogram can hold: exact ones (in units of a  *)
(* quarter, small enough that adding them is exact) and the three special ones, which stand for     *)
(* themselves as integers out of reach of the others.                                              *)
EXTENDS Integers

NaN  == 2000000000
PInf == 1900000000
NInf == -1900000000
Special == {NaN, PInf, NInf}

Neg(a) == IF a = NaN THEN NaN ELSE 0 - a
Plus(a, b) ==
  IF NaN \in {a, b} THEN NaN
  ELSE IF {a, b} = {PInf, NInf} THEN NaN
  ELSE IF a \in Special THEN a
  ELSE IF b \in Special THEN b
  ELSE a + b
Minus(a, b) == Plus(a, Neg(b))
=============================================================================
