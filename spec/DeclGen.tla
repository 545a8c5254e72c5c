------------------------------ MODULE DeclGen ------------------------------
(***************************************************************************)
(* The declarations that are compiled: every sequence of arguments up to a *)
(* length, at the item and at a field or variant, with one that no derive  *)
(* knows and ones that only another place knows; every argument with a     *)
(* value of the wrong kind; every shape of item; names over a small        *)
(* alphabet.                                                               *)
(***************************************************************************)
EXTENDS Declarations, TLC, Json, IOUtils

RECURSIVE Seqs(_, _)
Seqs(A, n) == IF n = 0 THEN { <<>> } ELSE LET S == Seqs(A, n - 1) IN S \cup { Append(s, a) : s \in S, a \in A }
Vocabulary(derive, place) == Known[derive][place] \cup { "bogus" }
Foreign(derive, place) == UNION { Known[e][p] : e \in Derives, p \in Places } \ Known[derive][place]
Ok(s) == [i \in DOMAIN s |-> [a |-> s[i], v |-> "ok"]]
Base(derive) == Ok(CASE derive = "labels" -> << "set" >> [] derive = "metrics" -> << "new" >> [] OTHER -> <<>>)
Shape(derive) == IF derive = "enum" THEN "unit" ELSE "named"
D(derive, shape, outer, inner, names) == [derive |-> derive, shape |-> shape, outer |-> outer, inner |-> inner, names |-> names]

Outers(n) == UNION { { D(x, Shape(x), Ok(s), <<>>, <<>>) : s \in Seqs(Vocabulary(x, "outer"), n) } : x \in Derives }
Inners(n) == UNION { { D(x, Shape(x), Base(x), Ok(s), <<>>) : s \in Seqs(Vocabulary(x, "inner"), n) } : x \in Derives }
Misplaced == UNION { { D(x, Shape(x), Base(x), Ok(<<a>>), <<>>) : a \in Foreign(x, "inner") } \cup
                     { D(x, Shape(x), Base(x) \o Ok(<<a>>), <<>>, <<>>) : a \in Foreign(x, "outer") } : x \in Derives }
Odd(a) == <<[a |-> a, v |-> "odd"]>>
Odds == UNION { { D(x, Shape(x), Base(x), Odd(a), <<>>) : a \in Known[x].inner } \cup
                { D(x, Shape(x), SelectSeq(Base(x), LAMBDA b : b.a # a) \o Odd(a), <<>>, <<>>) : a \in Known[x].outer } : x \in Derives }
Shaped == { D(x, s, Base(x), <<>>, <<>>) : x \in Derives, s \in Shapes }

\* a 1 _ : - and not ASCII
Strings(n) == { FlattenSeq(s) : s \in Seqs({ <<97>>, <<65>>, <<49>>, <<95>>, <<58>>, <<45>>, <<195, 169>> }, n) }
Name(k, s) == [k |-> k, s |-> s]
Kind(derive) == IF derive = "metrics" THEN "metric" ELSE "label"
Rename(derive) == IF derive = "enum" THEN "singleton" ELSE "rename"
Named(x, names) == IF x = "enum" THEN D(x, Shape(x), Ok(<<"singleton">>), <<>>, names) ELSE D(x, Shape(x), Base(x), Ok(<<"rename">>), names)
Names(n) == { Named(x, <<Name(Kind(x), s)>>) : x \in Derives, s \in Strings(n) }
\* two fields
Near == { <<97>>, <<65>>, <<95>>, <<97, 95>>, <<95, 97>>, <<97, 95, 97>>, <<97, 65>>, <<97, 97>>, <<97, 95, 95, 97>>, <<97, 58, 97>>, <<58>>, <<95, 49>>,
          <<97, 49>>, <<97, 95, 49>> }
Pairs == { Named(x, <<Name(Kind(x), s), Name(Kind(x), t)>>) : x \in { "labels", "metrics" }, s \in Near, t \in Near }

Which == CASE IOEnv.WHAT = "args" -> Outers(atoi(IOEnv.N)) \cup Inners(atoi(IOEnv.N)) \cup Misplaced \cup Odds \cup Shaped
           [] IOEnv.WHAT = "names" -> Names(atoi(IOEnv.N)) \cup Pairs
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({ d \in Which : ~Meaningless(d) }))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
