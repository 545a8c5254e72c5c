---------------------------- MODULE Declarations ----------------------------
(***************************************************************************)
(* Which declarations have a meaning. A derive gives a declaration its     *)
(* meaning or rejects it when it is compiled; it never drops a part of it. *)
(*                                                                         *)
(* A declaration: derive, shape of the item, the arguments of the item     *)
(* (outer) and of one of its fields or variants (inner), and the names     *)
(* that it exports, with their kind. An argument has a name and a value    *)
(* that is of the right kind ("ok") or not ("odd"). What else is in scope  *)
(* where it stands (aliases, variants, types) has no part in it.           *)
(***************************************************************************)
EXTENDS Bytes

Places == { "outer", "inner" }
Known == [
  enum    |-> [outer |-> { "crate", "rename_all", "singleton" }, inner |-> { "rename" }],
  labels  |-> [outer |-> { "crate", "set" }, inner |-> { "fixed", "fixed_with", "dynamic_with", "default", "rename" }],
  metrics |-> [outer |-> { "crate", "new" }, inner |-> { "rename", "namespace", "flatten", "init", "metadata", "label_set" }] ]
Derives == DOMAIN Known

Shapes == { "unit", "discs", "tuplevariant", "structvariant", "exprdisc", "negdisc", "named", "tuple", "unitstruct", "union" }
Supported(derive) == IF derive = "enum" THEN { "unit", "discs" } ELSE { "named" }

\* at most one of each
Alternatives(derive, place) ==
  { {a} : a \in Known[derive][place] } \cup
  CASE derive = "labels" /\ place = "inner" -> { { "fixed", "fixed_with", "dynamic_with" } }
    [] derive = "metrics" /\ place = "inner" -> { { "rename", "namespace", "flatten" }, { "init", "metadata" }, { "init", "label_set" } }
    [] OTHER -> {}
Required(derive, place) == IF derive = "labels" /\ place = "outer" THEN { "set" } ELSE {}

Args(d, place) == IF place = "outer" THEN d.outer ELSE d.inner
ArgsOk(d, place) ==
  LET as == Args(d, place) IN
  /\ \A i \in DOMAIN as : as[i].a \in Known[d.derive][place] /\ as[i].v = "ok"
  /\ \A alt \in Alternatives(d.derive, place) : Cardinality({ i \in DOMAIN as : as[i].a \in alt }) <= 1
  /\ \A r \in Required(d.derive, place) : \E i \in DOMAIN as : as[i].a = r
NamesOk(names) ==
  /\ \A i \in DOMAIN names : IF names[i].k = "metric" THEN ValidName(names[i].s) ELSE ValidLabel(names[i].s)
  /\ \A i, j \in DOMAIN names : names[i].s = names[j].s => i = j

WellFormed(d) == d.shape \in Supported(d.derive) /\ NamesOk(d.names) /\ \A place \in Places : ArgsOk(d, place)

\* what the derive has no part in: a group has no metadata of a metric
Meaningless(d) ==
  LET Has(S) == \E i \in DOMAIN d.inner : d.inner[i].a \in S IN
  d.derive = "metrics" /\ Has({ "namespace", "flatten" }) /\ Has({ "metadata", "label_set" })

ASSUME \A derive \in Derives : \A place \in Places : Required(derive, place) \subseteq Known[derive][place]
=============================================================================
