------------------------------- MODULE Names -------------------------------
(* Metric and label names: which strings are names, and what composed names spell. *)
EXTENDS Bytes

Accepts(ctor, s) == IF ctor = "label" THEN ValidLabel(s) ELSE ValidName(s)
N == <<110>>
Spelled(ctor, s) == IF ctor \in {"ns", "in_ns"} THEN s \o <<95>> \o N ELSE s

TOTAL  == <<95, 116, 111, 116, 97, 108>>
COUNTS == <<95, 99, 111, 117, 110, 116>>
SUMS   == <<95, 115, 117, 109>>
BUCKETS == <<95, 98, 117, 99, 107, 101, 116>>
Level(n, op) ==
  CASE op.o = "plain"   -> n
    [] op.o = "ns"      -> op.a \o <<95>> \o n
    [] op.o = "nstotal" -> op.a \o <<95>> \o n \o TOTAL
    [] op.o = "total"   -> n \o TOTAL
    [] op.o = "count"   -> n \o COUNTS
    [] op.o = "sum"     -> n \o SUMS
    [] op.o = "bucket"  -> n \o BUCKETS
    [] op.o = "custom"  -> n \o <<95>> \o op.a
Composed(base, ops) == FoldLeft(Level, base, ops)
\* every level but a custom suffix keeps a name a name
ASSUME \A op \in {[o |-> o, a |-> N] : o \in {"plain", "ns", "nstotal", "total", "count", "sum", "bucket", "custom"}} :
         ValidName(Level(N, op))
=============================================================================
