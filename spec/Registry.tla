------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* What a metric family (or a single metric) of `measured` means to the    *)
(* threads that use it, at the level of calls and returns.                 *)
(*                                                                         *)
(* The specification is written as a set of functions on configurations,   *)
(* so that the same text is used                                           *)
(*   - generatively (MCRegistry: every behaviour of small programs, with   *)
(*     conservation and consistency invariants),                           *)
(*   - as the abstract side of a refinement (VecImpl: locks, tables and    *)
(*     compare-and-swap loops, checked against it on the fly), and         *)
(*   - as the judge of histories recorded from the real code               *)
(*     (RegistryTrace: the set of configurations that explain a history).  *)
(*                                                                         *)
(* cx, the context:                                                        *)
(*   kind    "counter" | "gauge" | "fgauge" | "hist"                       *)
(*   labels  the labels of the family (a single metric has the label 0)    *)
(*   threads thread ids                                                    *)
(*   dense   TRUE when series cannot be removed                            *)
(*   bound   what the cardinality query reports as the limit (-1: none)    *)
(*   le      bucket bounds (histograms), in the unit of the observations   *)
(*   mod     numbers wrap at this (a power of two; 0: they do not)         *)
(*   init    the labels that are live from the start                       *)
(*                                                                         *)
(* A configuration:                                                        *)
(*   live[l] the state of series l, <<>> when there is no such series      *)
(*   p[t]    what thread t is doing                                        *)
(***************************************************************************)
EXTENDS Floats, Sequences, FiniteSets

Absent == <<>>

IsHist(cx) == cx.kind = "hist"
NB(cx) == Len(cx.le)

\* a histogram is its buckets, the overflow bucket and the sum; anything else one number
Zero(cx) == IF IsHist(cx) THEN [i \in 1..(NB(cx) + 2) |-> 0] ELSE <<0>>

\* the bucket an observation belongs to: the first whose bound is not below it (for NaN there is none)
BucketOf(cx, x) ==
  LET fits == {i \in 1..NB(cx) : x <= cx.le[i]}
  IN  IF fits = {} THEN NB(cx) + 1 ELSE CHOOSE i \in fits : \A j \in fits : i <= j

Observe(cx, v, x) ==
  [v EXCEPT ![BucketOf(cx, x)] = @ + 1, ![NB(cx) + 2] = Plus(@, x)]

\* counters and gauges wrap; the numbers of a history are in a ring scaled to cx.mod elements (0: unbounded)
Wrap(cx, n) == IF cx.mod = 0 THEN n ELSE n % cx.mod

Apply(cx, op, v, x) ==
  CASE IsHist(cx)  -> Observe(cx, v, x)
    [] op = "set" /\ cx.kind = "fgauge" -> <<x>>
    [] cx.kind = "fgauge" -> <<IF op = "sub" THEN Minus(v[1], x) ELSE Plus(v[1], x)>>
    [] op = "sub"  -> <<Wrap(cx, v[1] - x)>>
    [] op = "set"  -> <<Wrap(cx, x)>>
    [] OTHER       -> <<Wrap(cx, v[1] + x)>>

\* the samples a scrape shows for a series in state v: for a histogram the cumulative
\* buckets, the +Inf bucket, the count and the sum
RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE SumTo(v, i - 1) + v[i]

Export(cx, v) ==
  IF ~IsHist(cx) THEN v
  ELSE [i \in 1..(NB(cx) + 3) |->
          IF i <= NB(cx) THEN SumTo(v, i)
          ELSE IF i <= NB(cx) + 2 THEN SumTo(v, NB(cx) + 1)
          ELSE v[NB(cx) + 2]]

-----------------------------------------------------------------------------
FamilyUpd == {"upd", "upd1", "updg", "sub", "set"}
TimerEnd  == {"tobs", "tdrop", "tpanic"}
\* the same while time goes on: whenever the clock is read, it moves on by x
TimerTick == {"tobsx"}
Readings  == 0..2
Reads     == {"scrape", "scrapey", "pscrape", "card", "gread"}

Idle(l, clk, tl, t0) ==
  [st |-> "idle", op |-> "", l |-> 0, x |-> 0, out |-> <<>>, seen |-> <<>>,
   hold |-> l, clk |-> clk, tl |-> tl, t0 |-> t0]

InitConf(cx) ==
  [live |-> [l \in cx.labels |-> IF l \in cx.init THEN Zero(cx) ELSE Absent],
   p    |-> [t \in cx.threads |-> Idle(-1, 0, -1, 0)]]

\* a call: the thread has not done anything yet; a reading call starts watching
Call(cx, c, t, op, l, x) ==
  [c EXCEPT !.p[t] = [@ EXCEPT !.st = "inv", !.op = op, !.l = l, !.x = x, !.out = <<>>,
      !.seen = IF op \in Reads THEN [k \in cx.labels |-> {c.live[k]}] ELSE <<>>]]

\* whoever is reading sees every state a series goes through meanwhile
Watch(cx, c) ==
  [c EXCEPT !.p = [t \in cx.threads |->
     IF c.p[t].st = "inv" /\ c.p[t].op \in Reads
     THEN [c.p[t] EXCEPT !.seen = [k \in cx.labels |-> @[k] \cup {c.live[k]}]]
     ELSE c.p[t]]]

Cur(cx, c, l) == IF c.live[l] = Absent THEN Zero(cx) ELSE c.live[l]
WithLive(c, l, v) == [c EXCEPT !.live[l] = v]
Done(c, t, out) == [c EXCEPT !.p[t].st = "done", !.p[t].out = out]

\* first use of a label may become visible before the update that caused it
Touched(cx, c, l) ==
  IF c.live[l] = Absent THEN {WithLive(c, l, Zero(cx))} ELSE {}

Pinned(cx, c, l) == \E t \in cx.threads : c.p[t].hold = l

\* the steps thread t can take inside its current call
StepsOf(cx, c, t) ==
  LET p == c.p[t] IN
  IF p.st # "inv" THEN {}
  ELSE CASE
    p.op \in FamilyUpd ->
      Touched(cx, c, p.l)
        \cup {Done(WithLive(c, p.l, Apply(cx, p.op, Cur(cx, c, p.l), p.x)), t, <<>>)}
  [] p.op = "touch" ->
      {Done(WithLive(c, p.l, Cur(cx, c, p.l)), t, <<>>)}
  [] p.op = "init" ->
      {Done(IF cx.dense THEN [c EXCEPT !.live = [k \in cx.labels |-> Cur(cx, c, k)]] ELSE c, t, <<>>)}
  [] p.op = "rem" ->
      IF cx.dense THEN {Done(c, t, <<>>)}
      ELSE IF c.live[p.l] = Absent THEN {Done(c, t, <<>>)}
      ELSE IF Pinned(cx, c, p.l) THEN {}
      ELSE {Done(WithLive(c, p.l, Absent), t, <<c.live[p.l]>>)}
  [] p.op = "acq" ->
      {[Done(WithLive(c, p.l, Cur(cx, c, p.l)), t, <<>>) EXCEPT !.p[t].hold = p.l]}
  [] p.op = "gadd" ->
      {Done(WithLive(c, p.hold, Apply(cx, "upd", c.live[p.hold], p.x)), t, <<>>)}
  [] p.op = "gfin" ->
      {[Done(WithLive(c, p.hold, Apply(cx, "upd", c.live[p.hold], p.x)), t, <<>>)
          EXCEPT !.p[t].hold = -1]}
  [] p.op = "rel" ->
      {[Done(c, t, <<>>) EXCEPT !.p[t].hold = -1]}
  [] p.op = "adv" ->
      {[Done(c, t, <<>>) EXCEPT !.p[t].clk = @ + p.x]}
  [] p.op = "tstart" ->
      {[Done(c, t, <<>>) EXCEPT !.p[t].tl = p.l, !.p[t].t0 = p.clk]}
  [] p.op = "tforget" ->
      {[Done(c, t, <<>>) EXCEPT !.p[t].tl = -1]}
  [] p.op \in TimerEnd ->
      LET d == p.clk - p.t0
          o == IF p.op = "tobs" THEN <<<<d>>>> ELSE <<>>
      IN  Touched(cx, c, p.tl)
            \cup {[Done(WithLive(c, p.tl, Apply(cx, "upd", Cur(cx, c, p.tl), d)), t, o)
                     EXCEPT !.p[t].tl = -1]}
  [] p.op \in TimerTick ->
      \* the time of any reading, as long as it is the one that was reported
      LET D == { p.clk - p.t0 + k * p.x : k \in Readings } IN
      Touched(cx, c, p.tl)
        \cup { [Done(WithLive(c, p.tl, Apply(cx, "upd", Cur(cx, c, p.tl), d)), t, <<<<d>>>>) EXCEPT !.p[t].tl = -1] : d \in D }
  [] OTHER -> {}

Steps(cx, c) == {Watch(cx, d) : d \in UNION {StepsOf(cx, c, t) : t \in cx.threads}}

-----------------------------------------------------------------------------
\* which results a call may return in configuration c

\* each label is reported at most once, with a state it had meanwhile; a label that was there
\* all the time is reported
ScrapeOk(cx, seen, rows) ==
  /\ \A i \in 1..Len(rows) :
       /\ Len(rows[i]) >= 2
       /\ rows[i][1] \in cx.labels
       /\ \E v \in seen[rows[i][1]] :
             v # Absent /\ Tail(rows[i]) = Export(cx, v)
  /\ \A i, j \in 1..Len(rows) : i # j => rows[i][1] # rows[j][1]
  /\ \A l \in cx.labels :
       (\A i \in 1..Len(rows) : rows[i][1] # l) => Absent \in seen[l]

CardOk(cx, seen, rows) ==
  /\ Len(rows) = 1
  /\ Len(rows[1]) = 2
  /\ rows[1][2] = cx.bound
  /\ rows[1][1] >= Cardinality({l \in cx.labels : Absent \notin seen[l]})
  /\ rows[1][1] <= Cardinality({l \in cx.labels : \E v \in seen[l] : v # Absent})

ReturnOk(cx, c, t, res) ==
  LET p == c.p[t] IN
  CASE p.op \in {"scrape", "scrapey"} -> ScrapeOk(cx, p.seen, res)
    [] p.op = "pscrape" -> res = <<>> \/ ScrapeOk(cx, p.seen, res)
    [] p.op = "card"    -> CardOk(cx, p.seen, res)
    [] p.op = "gread"   -> \E v \in p.seen[p.hold] : res = <<v>>
    [] OTHER            -> p.st = "done" /\ res = p.out

Returned(c, t) ==
  [c EXCEPT !.p[t] = Idle(@.hold, @.clk, @.tl, @.t0)]

-----------------------------------------------------------------------------
\* Sets of configurations: all the ways of explaining what has been seen so far

RECURSIVE Close(_, _, _)
Close(cx, done, front) ==
  IF front = {} THEN done
  ELSE LET new == UNION {Steps(cx, c) : c \in front} \ (done \cup front)
       IN  Close(cx, done \cup front, new)
Closure(cx, cs) == Close(cx, {}, cs)

CallAll(cx, cs, t, op, l, x) == {Call(cx, c, t, op, l, x) : c \in cs}

ReturnAll(cx, cs, t, res) ==
  {Returned(c, t) : c \in {d \in Closure(cx, cs) : ReturnOk(cx, d, t, res)}}
=============================================================================
