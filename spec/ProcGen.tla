------------------------------ MODULE ProcGen ------------------------------
(***************************************************************************)
(* Histories of one pid: processes that have it, collectors made for it,   *)
(* scrapes. The state: who has the pid (0: nobody; n: the n-th process),   *)
(* whether it is a zombie, and the collectors made.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Start == [who |-> 1, last |-> 1, zombie |-> FALSE, cols |-> {}]
Cols == {"a", "b"}
Ops == { <<"change">>, <<"end">>, <<"reap">>, <<"reuse">> } \cup { <<o, c>> : o \in {"make", "scrape"}, c \in Cols }
Can(s, o) ==
  CASE o[1] = "change" -> s.who > 0 /\ ~s.zombie
    [] o[1] = "end" -> s.who > 0 /\ ~s.zombie
    [] o[1] = "reap" -> s.zombie
    [] o[1] = "reuse" -> s.who = 0
    [] o[1] = "make" -> o[2] \notin s.cols /\ (o[2] = "b" => "a" \in s.cols)
    [] o[1] = "scrape" -> o[2] \in s.cols
Do(s, o) ==
  CASE o[1] = "change" -> s
    [] o[1] = "end" -> [s EXCEPT !.zombie = TRUE]
    [] o[1] = "reap" -> [s EXCEPT !.zombie = FALSE, !.who = 0]
    [] o[1] = "reuse" -> [s EXCEPT !.who = s.last + 1, !.last = s.last + 1]
    [] o[1] = "make" -> [s EXCEPT !.cols = @ \cup {o[2]}]
    [] o[1] = "scrape" -> s
\* every history up to length n, not two scrapes of one collector in a row
RECURSIVE From(_, _, _)
From(s, n, prev) ==
  IF n = 0 THEN { <<>> }
  ELSE { <<>> } \cup UNION { { <<o>> \o h : h \in From(Do(s, o), n - 1, o) } : o \in { x \in Ops : Can(s, x) /\ x # prev } }
N == CHOOSE n \in 1..9 : ToString(n) = IOEnv.N
Histories == { h \in From(Start, N, <<"">>) : h # <<>> /\ h[Len(h)][1] = "scrape" }
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Histories))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
