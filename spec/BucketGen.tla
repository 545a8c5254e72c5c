----------------------------- MODULE BucketGen -----------------------------
(* Arguments of the bucket builders. *)
EXTENDS Buckets, TLC, TLCExt, Json, IOUtils
Sizes == {0, 1, 2, 3, 5, 8, 16, 33}
Long == {130, 300}
Dy(ms, es) == { [m |-> m, e |-> e] : m \in ms, e \in es }
Lin == { [ctor |-> "lin", n |-> n, a |-> a, b |-> b] :
           n \in Sizes, a \in Dy({-1000, -7, -1, 0, 1, 3}, {-3, 0, 7}), b \in Dy({-3, -1, 0, 1, 3, 5, 1001}, {-4, 0, 5}) }
  \cup { [ctor |-> "lin", n |-> n, a |-> a, b |-> b] : n \in Long, a \in Dy({-7, 1}, {0}), b \in Dy({0, 1, 1001}, {-4}) }
\* factors: powers of two, and odd multiples as long as the mantissa stays small
Exp == { c \in { [ctor |-> "exp", n |-> n, a |-> a, b |-> b] :
           n \in Sizes, a \in Dy({-3, -1, 0, 1, 3, 5}, {-30, 0, 20}), b \in Dy({-3, -1, 0, 1, 3, 5}, {-2, -1, 0, 1, 4}) } :
         Abs(c.b.m) > 1 => c.n <= 8 }
  \cup { [ctor |-> "exp", n |-> n, a |-> a, b |-> [m |-> 1, e |-> 1]] : n \in Long, a \in Dy({0, 1, 5}, {-30, 20}) }
\* lists over a pool of interesting floats
Inc(x) == IF x[4] < 65535 THEN [x EXCEPT ![4] = @ + 1] ELSE x
One == <<16368, 0, 0, 0>>
Pool == { <<65520, 0, 0, 0>>, <<49136, 0, 0, 0>>, <<32768, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, One, Inc(One),
          <<32751, 65535, 65535, 65535>>, Inf, <<32760, 0, 0, 0>> }
With == UNION { { [ctor |-> "with", n |-> n, l |-> l] : l \in [1..n -> Pool] } : n \in 0..3 }
Result == CASE IOEnv.WHAT = "buckets" -> SetToSeq(Lin) \o SetToSeq(Exp) \o SetToSeq(With)
ASSUME JsonSerialize(IOEnv.OUT, Result)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
