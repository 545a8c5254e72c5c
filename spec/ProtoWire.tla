----------------------------- MODULE ProtoWire -----------------------------
(***************************************************************************)
(* A reader of length-delimited io.prometheus.client.MetricFamily messages.*)
(* A document that starts with -1 is a rope: n * 256 + b in it stands for  *)
(* n bytes b.                                                              *)
(***************************************************************************)
EXTENDS Bytes

\* <<value, next position>>; value -1: not a varint within b[i..e] that fits 31 bits
RECURSIVE VarintAt(_, _, _, _, _)
VarintAt(b, i, e, shift, acc) ==
  IF i > e \/ shift > 2097152 * 128 THEN <<-1, i>>
  ELSE LET v == b[i] % 128 IN
       IF b[i] > 255 THEN <<-1, i>> ELSE
       IF shift = 268435456 /\ v > 7 THEN <<-1, i>>
       ELSE IF b[i] < 128 THEN <<acc + v * shift, i + 1>>
       ELSE IF shift = 268435456 THEN <<-1, i>>
       ELSE VarintAt(b, i + 1, e, shift * 128, acc + v * shift)
Varint(b, i, e) == VarintAt(b, i, e, 1, 0)

\* where the n bytes from position i end (the position after them), -1 if they end inside a run or not at all
RECURSIVE SkipRope(_, _, _)
SkipRope(b, i, n) ==
  IF n = 0 THEN i
  ELSE IF i > Len(b) THEN -1
  ELSE LET w == IF b[i] < 256 THEN 1 ELSE b[i] \div 256 IN
       IF w > n THEN -1 ELSE SkipRope(b, i + 1, n - w)
Skip(b, i, n) == IF b[1] = -1 THEN SkipRope(b, i, n) ELSE i + n

\* the fields of the message b[i..e]: [ok, fs: seq of [n, w, from, to, v]]
RECURSIVE FieldsFrom(_, _, _, _)
FieldsFrom(b, i, e, acc) ==
  IF i = e + 1 THEN [ok |-> TRUE, fs |-> acc]
  ELSE LET k == Varint(b, i, e) IN
    IF k[1] < 8 THEN [ok |-> FALSE, fs |-> acc]
    ELSE LET n == k[1] \div 8
             w == k[1] % 8
         IN CASE w = 0 -> LET v == Varint(b, k[2], e) IN
                   IF v[1] < 0 THEN [ok |-> FALSE, fs |-> acc]
                   ELSE FieldsFrom(b, v[2], e, Append(acc, [n |-> n, w |-> 0, from |-> 0, to |-> 0, v |-> v[1]]))
              [] w = 1 ->
                   IF k[2] + 7 > e THEN [ok |-> FALSE, fs |-> acc]
                   ELSE FieldsFrom(b, k[2] + 8, e, Append(acc, [n |-> n, w |-> 1, from |-> k[2], to |-> k[2] + 7, v |-> 0]))
              [] w = 2 -> LET l == Varint(b, k[2], e) IN
                   IF l[1] < 0 THEN [ok |-> FALSE, fs |-> acc]
                   ELSE LET j == Skip(b, l[2], l[1]) IN
                     IF j < 0 \/ j - 1 > e THEN [ok |-> FALSE, fs |-> acc]
                     ELSE FieldsFrom(b, j, e, Append(acc, [n |-> n, w |-> 2, from |-> l[2], to |-> j - 1, v |-> 0]))
              [] OTHER -> [ok |-> FALSE, fs |-> acc]
Fields(b, i, e) == FieldsFrom(b, i, e, <<>>)

Of(fs, n, w) == SelectSeq(fs, LAMBDA f : f.n = n /\ f.w = w)
\* nothing but these <<field, wire type>> pairs
Only(fs, S) == \A i \in DOMAIN fs : <<fs[i].n, fs[i].w>> \in S
Absent == <<-1>>
StringOf(b, fs, n) ==
  LET s == Of(fs, n, 2) IN IF s = <<>> THEN Absent ELSE SubSeq(b, Last(s).from, Last(s).to)
DoubleAt(b, i) == [k \in 1..4 |-> b[i + 9 - 2 * k] * 256 + b[i + 8 - 2 * k]]

LabelAt(b, f) ==
  LET m == Fields(b, f.from, f.to) IN
  IF m.ok /\ Only(m.fs, {<<1, 2>>, <<2, 2>>}) /\ Len(Of(m.fs, 1, 2)) = 1 /\ Len(Of(m.fs, 2, 2)) <= 1
  THEN <<StringOf(b, m.fs, 1), IF Of(m.fs, 2, 2) = <<>> THEN <<>> ELSE StringOf(b, m.fs, 2)>>
  ELSE <<Absent, Absent>>

BadMetric == [ok |-> FALSE, kind |-> FALSE, labels |-> <<>>, val |-> <<>>]
\* kind: is it a counter
MetricAt(b, f) ==
  LET m == Fields(b, f.from, f.to) IN
  IF ~m.ok \/ ~Only(m.fs, {<<1, 2>>, <<2, 2>>, <<3, 2>>}) THEN BadMetric
  ELSE LET labels == Of(m.fs, 1, 2)
           gauge == Of(m.fs, 2, 2)
           counter == Of(m.fs, 3, 2)
       IN IF Len(gauge) + Len(counter) # 1 THEN BadMetric
          ELSE LET x == Last(gauge \o counter)
                   vm == Fields(b, x.from, x.to)
               IN IF ~vm.ok \/ Len(vm.fs) # 1 \/ ~Only(vm.fs, {<<1, 1>>}) THEN BadMetric
                  ELSE [ok |-> TRUE, kind |-> gauge = <<>>,
                        labels |-> [i \in DOMAIN labels |-> LabelAt(b, labels[i])],
                        val |-> DoubleAt(b, vm.fs[1].from)]

\* an absent type is COUNTER (0)
FamilyAt(b, i, e) ==
  LET m == Fields(b, i, e) IN
  IF ~m.ok \/ ~Only(m.fs, {<<1, 2>>, <<2, 2>>, <<3, 0>>, <<4, 2>>}) \/ Len(Of(m.fs, 1, 2)) # 1
     \/ Len(Of(m.fs, 2, 2)) > 1 \/ Len(Of(m.fs, 3, 0)) > 1
  THEN [ok |-> FALSE]
  ELSE LET ms == Of(m.fs, 4, 2)
           metrics == [k \in DOMAIN ms |-> MetricAt(b, ms[k])]
           ty == Of(m.fs, 3, 0)
       IN [ok |-> \A k \in DOMAIN metrics : metrics[k].ok,
           name |-> StringOf(b, m.fs, 1), help |-> StringOf(b, m.fs, 2),
           type |-> IF ty = <<>> THEN 0 ELSE ty[1].v,
           metrics |-> metrics]

RECURSIVE Delimited(_, _, _)
Delimited(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, fams |-> acc]
  ELSE LET l == Varint(b, i, Len(b)) IN
       IF l[1] < 0 THEN [ok |-> FALSE, fams |-> acc]
       ELSE LET j == Skip(b, l[2], l[1]) IN
         IF j < 0 \/ j - 1 > Len(b) THEN [ok |-> FALSE, fams |-> acc]
         ELSE Delimited(b, j, Append(acc, FamilyAt(b, l[2], j - 1)))
ReadDelimited(b) == Delimited(b, IF b # <<>> /\ b[1] = -1 THEN 2 ELSE 1, <<>>)
=============================================================================
