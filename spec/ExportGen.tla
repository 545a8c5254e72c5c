----------------------------- MODULE ExportGen -----------------------------
(***************************************************************************)
(* What the export checks run: byte strings over the characters that the   *)
(* formats treat specially, shapes of families, trees of groups, sequences *)
(* of encoder actions. Enumerated here, instantiated by lib/seq.py.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils

\* a \ " LF n space { } = , # e-acute tab CR
Hard == { <<97>>, <<92>>, <<34>>, <<10>>, <<110>>, <<32>>, <<123>>, <<125>>, <<61>>, <<44>>, <<35>>, <<195, 169>>, <<9>>, <<13>> }
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN { <<>> } ELSE LET S == Strings(A, n - 1) IN S \cup { s \o a : s \in S, a \in A }

\* names: letters, digits and the characters that separate the two grammars
NameChars == { <<97>>, <<90>>, <<48>>, <<95>>, <<58>>, <<45>>, <<46>>, <<32>>, <<195, 169>>, <<10>>, <<0>> }

--------------------------------------------------------------------------
Kinds == { "counter", "gauge", "fgauge", "hist0", "hist1", "hist3" }
Reps == { "one", "dense", "sparse", "auto", "unbounded" }
\* labels: the types of the labels of a row; rows: how many series are recorded, out of how many
Shapes(kinds) ==
  { [kind |-> k, rep |-> r, labels |-> l, rows |-> n, all |-> a, help |-> h] :
      k \in kinds, r \in Reps, l \in { <<>>, <<"s">>, <<"i">>, <<"f">>, <<"s", "i">>, <<"s", "s", "f">> },
      n \in 0..3, a \in 0..3, h \in { "none", "empty", "some" } }
GoodShapes(kinds) ==
  { s \in Shapes(kinds) :
      /\ s.rows <= s.all
      /\ s.rep = "one" => s.labels = <<>> /\ s.rows = 1 /\ s.all = 1
      /\ s.labels = <<>> => s.all <= 1
      /\ s.labels = <<"s", "s", "f">> => s.all \in {0, 2} }

--------------------------------------------------------------------------
\* trees of at most d levels above the leaves; leaves are numbered later
Leaf == { [t |-> "F"] }
RECURSIVE Trees(_)
Trees(d) ==
  IF d = 0 THEN Leaf
  ELSE LET T == Trees(d - 1) IN
       T \cup { [t |-> x, a |-> g] : x \in {"N", "O", "A", "R"}, g \in T }
         \cup { [t |-> "Z"] }
         \cup { [t |-> "C", a |-> g, b |-> h] : g \in T, h \in T }

--------------------------------------------------------------------------
\* what is done with one encoder: c1..cn collect group n, f finishes (flushes)
RECURSIVE Actions(_, _)
Actions(A, n) == IF n = 0 THEN { <<>> } ELSE LET S == Actions(A, n - 1) IN S \cup { Append(s, a) : s \in { t \in S : Len(t) = n - 1 }, a \in A }

Result ==
  CASE IOEnv.WHAT = "strings" -> Strings(Hard, atoi(IOEnv.N))
    [] IOEnv.WHAT = "names"   -> Strings(NameChars, atoi(IOEnv.N))
    [] IOEnv.WHAT = "shapes"  -> GoodShapes(Kinds)
    [] IOEnv.WHAT = "trees"   -> Trees(atoi(IOEnv.N))
    [] IOEnv.WHAT = "actions" -> Actions({"a", "b", "e", "f"}, atoi(IOEnv.N))

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Result))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
