---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Judges histories recorded from the real library. The histories of a     *)
(* batch are given as a forest: node n has the event that leads to it and  *)
(* its children; roots carry the context. `confs` is the set of all        *)
(* configurations of Registry that explain the events on the way to node   *)
(* n. The history is one the specification allows iff that set is never    *)
(* empty. Any other event kind than call and return (deadlock, panic,      *)
(* hang) explains to nothing.                                              *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils, TLC

Forest == JsonDeserialize(IOEnv.TRACE)
Nodes == Forest.nodes
Roots == Forest.roots

Cx(r) ==
  [kind |-> r.kind, labels |-> 0..(r.nl - 1), threads |-> 0..(r.nt - 1),
   dense |-> r.dense, bound |-> r.bound, le |-> r.le, mod |-> r.mod,
   init |-> IF r.all THEN 0..(r.nl - 1) ELSE {}]

VARIABLES root, node, confs
vars == <<root, node, confs>>

Event(cx, cs, e) ==
  CASE e.k = "c" -> CallAll(cx, cs, e.t, e.op, e.l, e.x)
    [] e.k = "r" -> ReturnAll(cx, cs, e.t, e.res)
    [] OTHER -> {}

Init == /\ root \in 1..Len(Roots)
        /\ node = 0
        /\ confs = {InitConf(Cx(Roots[root]))}

Kids == IF node = 0 THEN Roots[root].kids ELSE Nodes[node].kids

Next == \E i \in 1..Len(Kids) :
          /\ confs # {}
          /\ node' = Kids[i]
          /\ confs' = Event(Cx(Roots[root]), confs, Nodes[Kids[i]])
          /\ UNCHANGED root

Spec == Init /\ [][Next]_vars

Explained == confs # {}
=============================================================================
