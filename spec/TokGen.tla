------------------------------- MODULE TokGen -------------------------------
(***************************************************************************)
(* Histories of a collector and its runtimes: starting runtimes, making    *)
(* them work, registering them (one of them even twice), shutting them     *)
(* down, scraping; and scrapes that come to nothing and registrations that *)
(* panic, neither of which changes anything (wreck). The state: how many   *)
(* runtimes there are, which are registered and which are down.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Start == [rts |-> 0, in |-> <<>>, down |-> {}]
Ops == { <<"rt", 0>>, <<"scrape", 0>>, <<"wreck", 0>> } \cup { <<o, r>> : o \in {"add", "work", "shut"}, r \in 0..2 }
Can(s, o) ==
  CASE o[1] = "rt" -> s.rts < 3
    [] o[1] = "scrape" -> TRUE
    [] o[1] = "wreck" -> s.in # <<>>
    [] o[1] = "add" -> o[2] < s.rts /\ Len(s.in) < 4 /\ Cardinality({ i \in DOMAIN s.in : s.in[i] = o[2] }) < 2
    [] o[1] \in {"work", "shut"} -> o[2] < s.rts /\ o[2] \notin s.down
Do(s, o) ==
  CASE o[1] = "rt" -> [s EXCEPT !.rts = @ + 1]
    [] o[1] = "add" -> [s EXCEPT !.in = Append(@, o[2])]
    [] o[1] = "shut" -> [s EXCEPT !.down = @ \cup {o[2]}]
    [] OTHER -> s
\* not two scrapes in a row
RECURSIVE From(_, _, _)
From(s, n, prev) ==
  IF n = 0 THEN { <<>> }
  ELSE { <<>> } \cup UNION { { <<o>> \o h : h \in From(Do(s, o), n - 1, o) } : o \in { x \in Ops : Can(s, x) /\ ~(x = prev /\ x[1] \in {"scrape", "wreck"}) } }
N == CHOOSE n \in 1..9 : ToString(n) = IOEnv.N
Histories == { h \in From(Start, N, <<"", 0>>) : h # <<>> /\ h[Len(h)][1] = "scrape" }
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Histories))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
