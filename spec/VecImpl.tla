------------------------------ MODULE VecImpl ------------------------------
(***************************************************************************)
(* How the library implements Registry: a sparse family is shards, each a  *)
(* table behind a reader-writer lock that guards keep read-locked; a dense *)
(* family is a vector of once-cells; a histogram is atomics behind a lock  *)
(* of its own, read-locked to observe and write-locked to sample; floats   *)
(* are compare-and-swap loops. One step of a thread is one access to       *)
(* shared memory. (Sequentially consistent; the library uses no order      *)
(* between different atomics that the locks do not give.)                  *)
(*                                                                         *)
(* `confs` follows the calls and returns with the set of configurations of *)
(* Registry that explain them (as RegistryTrace does for recorded          *)
(* histories): the implementation refines Registry iff it is never empty.  *)
(*                                                                         *)
(* Bug names a deliberate mistake, to see that it would be noticed.        *)
(***************************************************************************)
EXTENDS Programs, SequencesExt, TLC

CONSTANTS Kind, Rep, NT, Len1, Same, Prop, Bug

R == INSTANCE Registry
Threads == 1..NT
Labels == {0, 1}
Cx == [kind |-> Kind, labels |-> Labels, threads |-> 0..NT, dense |-> Rep = "dense", bound |-> 2, le |-> <<4, 8>>,
       mod |-> 0, init |-> {}]
Zero == R!Zero(Cx)
Absent == R!Absent
Hist == Kind = "hist"
Sparse == Rep = "sparse"
Shards == {0, 1}
ShardOf(l) == IF Same THEN 0 ELSE l
None == -1

VARIABLES prog, pc, loc, tab, once, rd, wr, ww, ird, iwr, hold, tm, confs
vars == <<prog, pc, loc, tab, once, rd, wr, ww, ird, iwr, hold, tm, confs>>

Fs == Plan(Prop)
\* the programs of a family that this kind and representation can run
Mine == { i \in DOMAIN Fs : Kind \in Fs[i].kinds /\ Rep \in Fs[i].reps
                           /\ \A u \in Fs[i].units : \A k \in DOMAIN u : u[k].l \in Labels }
Ops == {"upd", "upd1", "sub", "set", "updg", "touch", "rem", "scrape", "scrapey", "card", "acq", "gadd", "gread", "gfin", "rel",
        "tstart", "adv", "tobs", "tdrop", "tpanic", "tforget", "pscrape"}
Runs(u) == \A k \in DOMAIN u : u[k].op \in Ops /\ (u[k].op = "gread" => Kind # "hist")
UnitsOf(i) == { u \in Fs[i].units : Runs(u) }
ProgramsOf(i) == { Cat(s) : s \in UNION { [1..k -> UnitsOf(i)] : k \in 1..Len1 } }

Blank == [l |-> 0, x |-> 0, op |-> "", v |-> 0, snap |-> <<>>, w |-> 0, s |-> 0, todo |-> {}, out |-> <<>>]
Init ==
  /\ \E i \in Mine : LET P == SetToSeq(ProgramsOf(i)) IN
       \* threads are alike: their programs are in order
       \E k \in [Threads -> 1..Len(P)] : (\A t \in 1..(NT - 1) : k[t] <= k[t + 1]) /\ prog = [t \in Threads |-> P[k[t]]]
  /\ pc = [t \in Threads |-> "idle"]
  /\ loc = [t \in Threads |-> Blank]
  /\ tab = [l \in Labels |-> Absent]
  /\ once = [l \in Labels |-> "empty"]
  /\ rd = [s \in Shards |-> {}] /\ wr = [s \in Shards |-> None] /\ ww = [s \in Shards |-> {}]
  /\ ird = [l \in Labels |-> {}] /\ iwr = [l \in Labels |-> None]
  /\ hold = [t \in Threads |-> None]
  /\ tm = [t \in Threads |-> [l |-> None, t0 |-> 0, clk |-> 0]]
  /\ confs = {R!InitConf(Cx)}

Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(t, f, v) == loc' = [loc EXCEPT ![t][f] = v]

--------------------------------------------------------------------------
(* calls and returns *)
Call(t) ==
  /\ pc[t] = "idle" /\ prog[t] # <<>>
  /\ LET o == Head(prog[t])
         l == IF o.op \in {"gadd", "gread", "gfin", "rel"} THEN hold[t] ELSE IF o.op \in R!TimerEnd THEN tm[t].l ELSE o.l
         x == IF o.op \in R!TimerEnd THEN tm[t].clk - tm[t].t0 ELSE o.x
     IN /\ loc' = [loc EXCEPT ![t] = [Blank EXCEPT !.l = l, !.x = x, !.op = o.op, !.out = IF o.op = "tobs" THEN <<<<x>>>> ELSE <<>>]]
        /\ tm' = [tm EXCEPT ![t] = CASE o.op = "tstart" -> [@ EXCEPT !.l = o.l, !.t0 = tm[t].clk]
                                     [] o.op = "adv" -> [@ EXCEPT !.clk = @ + o.x]
                                     [] OTHER -> @]
        /\ confs' = R!CallAll(Cx, confs, t, o.op, o.l, o.x)
        /\ Goto(t, CASE o.op \in {"gadd", "gread", "gfin"} -> "have"
                     [] o.op = "rel" -> "unlock"
                     [] o.op = "rem" -> IF Sparse THEN "want" ELSE "ret"
                     [] o.op \in {"tstart", "adv", "tforget"} -> "ret"
                     [] o.op \in {"scrape", "scrapey", "card", "pscrape"} -> "scan"
                     [] OTHER -> "get")
  /\ UNCHANGED <<prog, tab, once, rd, wr, ww, ird, iwr, hold>>

Return(t) ==
  /\ pc[t] = "ret"
  /\ confs' = R!ReturnAll(Cx, confs, t, loc[t].out)
  /\ prog' = [prog EXCEPT ![t] = Tail(@)]
  /\ Goto(t, "idle") /\ loc' = [loc EXCEPT ![t] = Blank]
  /\ UNCHANGED <<tab, once, rd, wr, ww, ird, iwr, hold, tm>>

--------------------------------------------------------------------------
(* reader-writer locks: a waiting writer keeps new readers out *)
CanRead(s) == wr[s] = None /\ ww[s] = {}
CanWrite(s) == wr[s] = None /\ rd[s] = {}

\* get_metric, sparse
GetRead(t) ==
  /\ pc[t] = "get" /\ Sparse
  /\ LET s == ShardOf(loc[t].l) IN CanRead(s) /\ rd' = [rd EXCEPT ![s] = @ \cup {t}]
  /\ Goto(t, "find")
  /\ UNCHANGED <<prog, loc, tab, once, wr, ww, ird, iwr, hold, tm, confs>>
Find(t) ==
  /\ pc[t] = "find"
  /\ LET l == loc[t].l
         s == ShardOf(l) IN
     IF tab[l] # Absent THEN Goto(t, "have") /\ UNCHANGED rd
     ELSE /\ Goto(t, "want")
          /\ IF Bug = "upgrade" THEN UNCHANGED rd ELSE rd' = [rd EXCEPT ![s] = @ \ {t}]
  /\ UNCHANGED <<prog, loc, tab, once, wr, ww, ird, iwr, hold, tm, confs>>
\* a writer announces itself and waits; it gets the lock when the readers have gone
Want(t) ==
  /\ pc[t] = "want"
  /\ ww' = [ww EXCEPT ![ShardOf(loc[t].l)] = @ \cup {t}]
  /\ Goto(t, "wlock")
  /\ UNCHANGED <<prog, loc, tab, once, rd, wr, ird, iwr, hold, tm, confs>>
WLock(t) ==
  /\ pc[t] = "wlock"
  /\ LET s == ShardOf(loc[t].l) IN
     /\ CanWrite(s) \/ (Bug = "rem_unlocked" /\ loc[t].op = "rem" /\ wr[s] = None)
     /\ wr' = [wr EXCEPT ![s] = t] /\ ww' = [ww EXCEPT ![s] = @ \ {t}]
  /\ Goto(t, IF loc[t].op = "rem" THEN "remove" ELSE "insert")
  /\ UNCHANGED <<prog, loc, tab, once, rd, ird, iwr, hold, tm, confs>>
Put(t) ==
  /\ pc[t] = "insert"
  /\ LET l == loc[t].l
         s == ShardOf(l) IN
     /\ tab' = [tab EXCEPT ![l] = IF @ = Absent \/ Bug = "no_recheck" THEN Zero ELSE @]
     /\ wr' = [wr EXCEPT ![s] = None]
     /\ IF Bug = "no_downgrade" THEN UNCHANGED rd /\ Goto(t, "reget")
        ELSE rd' = [rd EXCEPT ![s] = @ \cup {t}] /\ Goto(t, "have")
  /\ UNCHANGED <<prog, loc, once, ww, ird, iwr, hold, tm, confs>>
\* the mistaken variant: unlock, lock again
ReGet(t) ==
  /\ pc[t] = "reget"
  /\ LET s == ShardOf(loc[t].l) IN CanRead(s) /\ rd' = [rd EXCEPT ![s] = @ \cup {t}]
  /\ Goto(t, IF tab[loc[t].l] = Absent THEN "panic" ELSE "have")
  /\ UNCHANGED <<prog, loc, tab, once, wr, ww, ird, iwr, hold, tm, confs>>
Take(t) ==
  /\ pc[t] = "remove"
  /\ LET l == loc[t].l IN
     /\ Set(t, "out", IF tab[l] = Absent THEN <<>> ELSE <<tab[l]>>)
     /\ tab' = [tab EXCEPT ![l] = Absent]
     /\ wr' = [wr EXCEPT ![ShardOf(l)] = None]
  /\ Goto(t, "ret")
  /\ UNCHANGED <<prog, once, rd, ww, ird, iwr, hold, tm, confs>>

\* get_metric, dense: a once-cell; who finds it being initialised waits
GetDense(t) ==
  /\ pc[t] = "get" /\ ~Sparse
  /\ LET l == loc[t].l IN
     CASE once[l] = "full"  -> Goto(t, "have") /\ UNCHANGED once
       [] once[l] = "empty" -> once' = [once EXCEPT ![l] = "busy"] /\ Goto(t, "init")
       [] OTHER -> Bug = "once_race" /\ Goto(t, "init") /\ UNCHANGED once
  /\ UNCHANGED <<prog, loc, tab, rd, wr, ww, ird, iwr, hold, tm, confs>>
InitDense(t) ==
  /\ pc[t] = "init"
  /\ LET l == loc[t].l IN tab' = [tab EXCEPT ![l] = Zero] /\ once' = [once EXCEPT ![l] = "full"]
  /\ Goto(t, "have")
  /\ UNCHANGED <<prog, loc, rd, wr, ww, ird, iwr, hold, tm, confs>>

--------------------------------------------------------------------------
(* with the metric in hand *)
Keeps(op) == op \in {"acq", "gadd", "gread"}
After(op) == IF Keeps(op) \/ ~Sparse THEN "ret" ELSE "unlock"

Have(t) ==
  /\ pc[t] = "have"
  /\ LET o == loc[t].op
         l == loc[t].l IN
     CASE o = "acq" -> hold' = [hold EXCEPT ![t] = l] /\ Goto(t, "ret") /\ UNCHANGED <<loc, tab, ird>>
       [] o = "touch" -> Goto(t, After(o)) /\ UNCHANGED <<loc, tab, ird, hold, tm>>
       [] o = "gread" -> Set(t, "out", <<tab[l]>>) /\ Goto(t, "ret") /\ UNCHANGED <<tab, ird, hold, tm>>
       [] o = "set" /\ Kind = "fgauge" -> tab' = [tab EXCEPT ![l] = <<loc[t].x>>] /\ Goto(t, After(o)) /\ UNCHANGED <<loc, ird, hold, tm>>
       [] Hist -> iwr[l] = None /\ ird' = [ird EXCEPT ![l] = @ \cup {t}] /\ Goto(t, "bucket") /\ UNCHANGED <<loc, tab, hold, tm>>
       [] Kind = "fgauge" -> Set(t, "v", tab[l][1]) /\ Goto(t, "cas") /\ UNCHANGED <<tab, ird, hold, tm>>
       [] Bug = "load_store" -> Set(t, "v", tab[l][1]) /\ Goto(t, "store") /\ UNCHANGED <<tab, ird, hold, tm>>
       [] OTHER -> /\ tab' = [tab EXCEPT ![l] = R!Apply(Cx, o, @, loc[t].x)]
                   /\ Goto(t, After(o)) /\ UNCHANGED <<loc, ird, hold, tm>>
  /\ UNCHANGED <<prog, once, rd, wr, ww, iwr, tm, confs>>
Store(t) ==
  /\ pc[t] = "store"
  /\ LET l == loc[t].l IN tab' = [tab EXCEPT ![l] = R!Apply(Cx, loc[t].op, <<loc[t].v>>, loc[t].x)]
  /\ Goto(t, After(loc[t].op))
  /\ UNCHANGED <<prog, loc, once, rd, wr, ww, ird, iwr, hold, tm, confs>>
\* compare and swap of a float; it may also fail for no reason
Cas(t) ==
  /\ pc[t] = "cas"
  /\ LET l == loc[t].l
         now == tab[l][1] IN
     IF (now = loc[t].v /\ ~(Bug = "cas_float" /\ now = NaN)) \/ Bug = "cas_blind"
     THEN tab' = [tab EXCEPT ![l] = R!Apply(Cx, loc[t].op, <<loc[t].v>>, loc[t].x)] /\ Goto(t, After(loc[t].op)) /\ UNCHANGED loc
     ELSE IF Bug = "cas_giveup" THEN Goto(t, After(loc[t].op)) /\ UNCHANGED <<loc, tab>>
     ELSE Set(t, "v", now) /\ UNCHANGED <<pc, tab>>
  /\ UNCHANGED <<prog, once, rd, wr, ww, ird, iwr, hold, tm, confs>>
\* an observation
Bucket(t) ==
  /\ pc[t] = "bucket"
  /\ LET l == loc[t].l IN tab' = [tab EXCEPT ![l][R!BucketOf(Cx, loc[t].x)] = @ + 1]
  /\ IF Bug = "sum_unlocked" THEN ird' = [ird EXCEPT ![loc[t].l] = @ \ {t}] ELSE UNCHANGED ird
  /\ Goto(t, "sload")
  /\ UNCHANGED <<prog, loc, once, rd, wr, ww, iwr, hold, tm, confs>>
SumAt == R!NB(Cx) + 2
SLoad(t) ==
  /\ pc[t] = "sload" /\ Set(t, "v", tab[loc[t].l][SumAt]) /\ Goto(t, "scas")
  /\ UNCHANGED <<prog, tab, once, rd, wr, ww, ird, iwr, hold, tm, confs>>
SCas(t) ==
  /\ pc[t] = "scas"
  /\ LET l == loc[t].l IN
     IF tab[l][SumAt] = loc[t].v \/ Bug = "cas_blind"
     THEN tab' = [tab EXCEPT ![l][SumAt] = R!Plus(loc[t].v, loc[t].x)] /\ Goto(t, "iunlock") /\ UNCHANGED loc
     ELSE Set(t, "v", tab[l][SumAt]) /\ UNCHANGED <<pc, tab>>
  /\ UNCHANGED <<prog, once, rd, wr, ww, ird, iwr, hold, tm, confs>>
IUnlock(t) ==
  /\ pc[t] = "iunlock"
  /\ ird' = [ird EXCEPT ![loc[t].l] = @ \ {t}]
  /\ Goto(t, After(loc[t].op))
  /\ UNCHANGED <<prog, loc, tab, once, rd, wr, ww, iwr, hold, tm, confs>>
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ rd' = IF Sparse THEN [rd EXCEPT ![ShardOf(loc[t].l)] = @ \ {t}] ELSE rd
  /\ hold' = [hold EXCEPT ![t] = None]
  /\ Goto(t, "ret")
  /\ UNCHANGED <<prog, loc, tab, once, wr, ww, ird, iwr, tm, confs>>

--------------------------------------------------------------------------
(* scrapes and cardinality: shard by shard, or cell by cell *)
Card0(t) == loc[t].op = "card"
Scan(t) ==
  /\ pc[t] = "scan" /\ Sparse
  /\ IF loc[t].s \in Shards
     THEN /\ CanRead(loc[t].s)
          /\ rd' = [rd EXCEPT ![loc[t].s] = @ \cup {t}]
          /\ Set(t, "todo", { l \in Labels : ShardOf(l) = loc[t].s /\ tab[l] # Absent })
          /\ Goto(t, "row")
     ELSE /\ IF Card0(t) THEN Set(t, "out", <<<<loc[t].w, 2>>>>) ELSE UNCHANGED loc
          /\ Goto(t, "ret") /\ UNCHANGED rd
  /\ UNCHANGED <<prog, tab, once, wr, ww, ird, iwr, hold, tm, confs>>
Row(t) ==
  /\ pc[t] = "row"
  /\ IF loc[t].todo = {}
     THEN /\ rd' = [rd EXCEPT ![loc[t].s] = @ \ {t}]
          /\ Set(t, "s", loc[t].s + 1) /\ Goto(t, "scan") /\ UNCHANGED <<iwr, ird>>
     ELSE LET l == CHOOSE m \in loc[t].todo : \A k \in loc[t].todo : m <= k IN
          /\ UNCHANGED rd
          /\ IF Card0(t) THEN loc' = [loc EXCEPT ![t].w = @ + Cardinality(loc[t].todo), ![t].todo = {}] /\ UNCHANGED <<pc, iwr, ird>>
             ELSE IF Hist
             THEN /\ iwr[l] = None /\ (ird[l] = {} \/ Bug = "sample_shared")
                  /\ IF Bug = "sample_shared" THEN ird' = [ird EXCEPT ![l] = @ \cup {t}] /\ UNCHANGED iwr
                     ELSE iwr' = [iwr EXCEPT ![l] = t] /\ UNCHANGED ird
                  /\ loc' = [loc EXCEPT ![t].l = l] /\ Goto(t, "sample")
             ELSE loc' = [loc EXCEPT ![t].out = Append(@, <<l, tab[l][1]>>), ![t].todo = @ \ {l}] /\ UNCHANGED <<pc, iwr, ird>>
  /\ UNCHANGED <<prog, tab, once, wr, ww, hold, tm, confs>>
\* the buckets, then the sum
Sample(t) ==
  /\ pc[t] = "sample"
  /\ Set(t, "snap", tab[loc[t].l]) /\ Goto(t, "sample2")
  /\ UNCHANGED <<prog, tab, once, rd, wr, ww, ird, iwr, hold, tm, confs>>
Sample2(t) ==
  /\ pc[t] = "sample2"
  /\ LET l == loc[t].l
         v == [loc[t].snap EXCEPT ![SumAt] = tab[l][SumAt]]
     IN loc' = [loc EXCEPT ![t].out = Append(@, <<l>> \o R!Export(Cx, v)), ![t].todo = @ \ {l}, ![t].snap = <<>>, ![t].l = 0,
                           ![t].s = IF Sparse THEN @ ELSE @ + 1]
  /\ iwr' = [iwr EXCEPT ![loc[t].l] = IF @ = t THEN None ELSE @]
  /\ ird' = [ird EXCEPT ![loc[t].l] = @ \ {t}]
  /\ Goto(t, IF Sparse THEN "row" ELSE "scan")
  /\ UNCHANGED <<prog, tab, once, rd, wr, ww, hold, tm, confs>>
ScanDense(t) ==
  /\ pc[t] = "scan" /\ ~Sparse
  /\ LET l == loc[t].s IN
     IF l \notin Labels
     THEN /\ IF Card0(t) THEN Set(t, "out", <<<<loc[t].w, 2>>>>) ELSE UNCHANGED loc
          /\ Goto(t, "ret") /\ UNCHANGED iwr
     ELSE IF once[l] # "full" THEN loc' = [loc EXCEPT ![t].s = @ + 1] /\ UNCHANGED <<pc, iwr>>
     ELSE IF Card0(t) THEN loc' = [loc EXCEPT ![t].s = @ + 1, ![t].w = @ + 1] /\ UNCHANGED <<pc, iwr>>
     ELSE IF Hist THEN /\ iwr[l] = None /\ ird[l] = {}
                       /\ iwr' = [iwr EXCEPT ![l] = t] /\ loc' = [loc EXCEPT ![t].l = l] /\ Goto(t, "sample")
     ELSE loc' = [loc EXCEPT ![t].out = Append(@, <<l, tab[l][1]>>), ![t].s = @ + 1] /\ UNCHANGED <<pc, iwr>>
  /\ UNCHANGED <<prog, tab, once, rd, wr, ww, ird, hold, tm, confs>>

\* the writer of a scrape panics: its locks go
Abort(t) ==
  /\ loc[t].op = "pscrape" /\ pc[t] \in {"scan", "row"}
  /\ rd' = [s \in Shards |-> rd[s] \ {t}]
  /\ loc' = [loc EXCEPT ![t] = [@ EXCEPT !.todo = {}, !.out = <<>>]]
  /\ Goto(t, "ret")
  /\ UNCHANGED <<prog, tab, once, wr, ww, ird, iwr, hold, tm, confs>>

--------------------------------------------------------------------------
Step(t) ==
  \/ Call(t) \/ Return(t)
  \/ GetRead(t) \/ Find(t) \/ Want(t) \/ WLock(t) \/ Put(t) \/ ReGet(t) \/ Take(t)
  \/ GetDense(t) \/ InitDense(t)
  \/ Have(t) \/ Store(t) \/ Cas(t) \/ Bucket(t) \/ SLoad(t) \/ SCas(t) \/ IUnlock(t) \/ Unlock(t)
  \/ Scan(t) \/ Row(t) \/ Sample(t) \/ Sample2(t) \/ ScanDense(t) \/ Abort(t)
AllDone == \A t \in Threads : pc[t] = "idle" /\ prog[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Explained == confs # {}
NoPanic == \A t \in Threads : pc[t] # "panic"
\* when everyone has finished, the state is one the explaining configurations agree with
Settled == AllDone => \E c \in R!Closure(Cx, confs) : \A l \in Labels : c.live[l] = tab[l]
\* locks are exclusive
Locks ==
  /\ \A s \in Shards : wr[s] # None => rd[s] = {}
  /\ \A l \in Labels : iwr[l] # None => ird[l] = {}
Ends == <>AllDone
=============================================================================
