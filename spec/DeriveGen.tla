----------------------------- MODULE DeriveGen -----------------------------
(***************************************************************************)
(* The declarations that the derive checks compile and run: identifiers of *)
(* variants over upper case, lower case, digit and underscore; the kinds   *)
(* of the fields of label groups and of metric groups, in every order.     *)
(***************************************************************************)
EXTENDS Bytes, TLC, TLCExt, Json, IOUtils

RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN { <<>> } ELSE LET S == Strings(A, n - 1) IN S \cup { Append(s, a) : s \in S, a \in A }
Idents(n) == { s \in Strings({65, 98, 49, 95}, n) : s # <<>> /\ s # <<95>> /\ ~IsDigit(s[1]) }

FieldKinds == { "kind", "bit", "fixed", "index", "reader", "shared", "phf", "default", "dyn", "dyndef", "dynarc" }
RECURSIVE Seqs(_, _)
Seqs(A, n) == IF n = 0 THEN { <<>> } ELSE LET S == Seqs(A, n - 1) IN S \cup { Append(s, a) : s \in S, a \in A }
LabelGroups(n) == { s \in Seqs(FieldKinds, n) : s # <<>> }

\* kinds of metric group fields; "ns" and "flat" wrap an earlier group held in one of the ways of Held
Leaves == { "counter", "gauge", "fgauge", "hist", "cvec", "gvec", "hvec", "some", "none", "preset" }
Held == { "plain", "arc", "ref", "some", "none", "comp" }
Fields == Leaves \cup { "ns-" \o h : h \in Held } \cup { "flat-" \o h : h \in Held }
MetricGroups(n) == { s \in Seqs(Fields, n) : s # <<>> }

Result == CASE IOEnv.WHAT = "idents" -> SetToSeq(Idents(atoi(IOEnv.N)))
            [] IOEnv.WHAT = "groups" -> SetToSeq(LabelGroups(atoi(IOEnv.N)))
            [] IOEnv.WHAT = "mgroups" -> SetToSeq(MetricGroups(atoi(IOEnv.N)))
ASSUME JsonSerialize(IOEnv.OUT, Result)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
