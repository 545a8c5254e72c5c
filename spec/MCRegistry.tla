----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* Every behaviour of small client programs under Registry, with what the  *)
(* properties promise in the words of a user: nothing is lost or counted   *)
(* twice, scrapes are consistent and never go backwards, everything ends.  *)
(* (Registry is what recorded histories are judged by; this checks that    *)
(* being explained by it means what the properties say.)                   *)
(***************************************************************************)
EXTENDS Programs, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Kind, Rep, NT, Len1, Prop
R == INSTANCE Registry
Threads == 1..NT
Labels == {0, 1}
Cx == [kind |-> Kind, labels |-> Labels, threads |-> 0..NT, dense |-> Rep = "dense", bound |-> 2, le |-> <<4, 8>>,
       mod |-> 0, init |-> {}]
Hist == Kind = "hist"
Fs == Plan(Prop)
Ops == {"upd", "upd1", "sub", "updg", "touch", "rem", "scrape", "scrapey", "card", "acq", "gadd", "gread", "gfin", "rel",
        "tstart", "adv", "tobs", "tdrop", "tpanic", "tforget"}
Mine == { i \in DOMAIN Fs : Kind \in Fs[i].kinds /\ Rep \in Fs[i].reps
                           /\ \A u \in Fs[i].units : \A k \in DOMAIN u : u[k].l \in Labels }
ProgramsOf(i) == LET U == { u \in Fs[i].units : \A k \in DOMAIN u : u[k].op \in Ops /\ (u[k].op = "gread" => ~Hist) /\ u[k].x \notin Special } IN
                 { Cat(s) : s \in UNION { [1..k -> U] : k \in 1..Len1 } }

VARIABLES c, prog, removed, sent, shown
vars == <<c, prog, removed, sent, shown>>
\* removed: the states removals have returned; sent: the updates that have returned, <<label, op, x>>;
\* shown: what the last scrape that returned showed, and for scrapes under way what had been shown when they began
Init ==
  /\ c = R!InitConf(Cx)
  /\ \E i \in Mine : LET P == SetToSeq(ProgramsOf(i)) IN
       \E k \in [Threads -> 1..Len(P)] : (\A t \in 1..(NT - 1) : k[t] <= k[t + 1]) /\ prog = [t \in Threads |-> P[k[t]]]
  /\ removed = <<>> /\ sent = <<>>
  /\ shown = [last |-> <<>>, at |-> [t \in Threads |-> <<>>], rem |-> FALSE]

Call(t) ==
  /\ c.p[t].st = "idle" /\ prog[t] # <<>>
  /\ c' = R!Call(Cx, c, t, Head(prog[t]).op, Head(prog[t]).l, Head(prog[t]).x)
  /\ shown' = IF Head(prog[t]).op \in R!Reads THEN [shown EXCEPT !.at[t] = shown.last] ELSE shown
  /\ UNCHANGED <<prog, removed, sent>>
Inner(t) ==
  /\ \E d \in R!StepsOf(Cx, c, t) : c' = R!Watch(Cx, d)
  /\ UNCHANGED <<prog, removed, sent, shown>>

\* the documents a scrape may return
Rows(seen) ==
  { LET ls == SetToSortSeq({ l \in Labels : f[l] # R!Absent }, <) IN [k \in DOMAIN ls |-> <<ls[k]>> \o R!Export(Cx, f[ls[k]])]
    : f \in { g \in [Labels -> UNION { seen[l] : l \in Labels }] : \A l \in Labels : g[l] \in seen[l] } }
Results(t) ==
  LET p == c.p[t] IN
  CASE p.op \in {"scrape", "scrapey"} -> Rows(p.seen)
    [] p.op = "card" -> { <<<<n, 2>>>> : n \in 0..2 }
    [] p.op = "gread" -> { <<v>> : v \in p.seen[p.hold] }
    [] OTHER -> { p.out }
\* with increments only and nothing removed, no number of a later scrape is smaller, and no series disappears
Forwards(a, b) ==
  (Kind \in {"counter", "hist"} /\ ~shown.rem /\ \A u \in Threads : \A k \in DOMAIN prog[u] : prog[u][k].op # "rem") =>
    \A i \in DOMAIN a : \E j \in DOMAIN b : a[i][1] = b[j][1] /\ \A k \in DOMAIN a[i] : a[i][k] <= b[j][k]
Updates == {"upd", "upd1", "sub", "updg", "gadd", "gfin"}
Return(t) ==
  /\ c.p[t].st \in {"inv", "done"}
  /\ \E r \in Results(t) :
       /\ R!ReturnOk(Cx, c, t, r)
       /\ LET p == c.p[t] IN
          /\ removed' = IF p.op = "rem" /\ r # <<>> THEN Append(removed, <<p.l, r[1]>>) ELSE removed
          /\ sent' = IF p.op \in Updates \cup R!TimerEnd
                     THEN Append(sent, <<p.op, IF p.op \in R!TimerEnd THEN p.clk - p.t0 ELSE p.x>>) ELSE sent
          /\ shown' = IF p.op \in {"scrape", "scrapey"} THEN [shown EXCEPT !.last = r] ELSE
                      IF p.op = "rem" THEN [shown EXCEPT !.rem = TRUE] ELSE shown
          /\ p.op \in {"scrape", "scrapey"} => Assert(Forwards(shown.at[t], r), <<"a scrape goes backwards", shown.at[t], r>>)
  /\ c' = R!Returned(c, t)
  /\ prog' = [prog EXCEPT ![t] = Tail(@)]

Step(t) == Call(t) \/ Inner(t) \/ Return(t)
AllDone == \A t \in Threads : prog[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

--------------------------------------------------------------------------
Sum(S, F(_)) == MapThenFoldSet(+, 0, F, LAMBDA T : CHOOSE x \in T : TRUE, S)
Signed(u) == IF u[1] = "sub" THEN 0 - u[2] ELSE u[2]
\* updates that have taken effect but not returned
Open == { t \in Threads : c.p[t].st = "done" /\ c.p[t].op \in Updates \cup R!TimerEnd }
OpenRem == { t \in Threads : c.p[t].st = "done" /\ c.p[t].op = "rem" /\ c.p[t].out # <<>> }
X(t) == IF c.p[t].op \in R!TimerEnd THEN c.p[t].clk - c.p[t].t0 ELSE IF c.p[t].op = "sub" THEN 0 - c.p[t].x ELSE c.p[t].x
Total(v) == IF Hist THEN v[R!NB(Cx) + 2] ELSE v[1]
Count(v) == Sum(1..(R!NB(Cx) + 1), LAMBDA k : v[k])
LiveLabels == { l \in Labels : c.live[l] # R!Absent }

\* every update that took effect is in one place: a live series or a removed state
Conserved ==
  /\ Sum(DOMAIN sent, LAMBDA k : Signed(sent[k])) + Sum(Open, X)
     = Sum(LiveLabels, LAMBDA l : Total(c.live[l])) + Sum(DOMAIN removed, LAMBDA k : Total(removed[k][2])) + Sum(OpenRem, LAMBDA t : Total(c.p[t].out[1]))
  /\ Hist => Len(sent) + Cardinality(Open)
     = Sum(LiveLabels, LAMBDA l : Count(c.live[l])) + Sum(DOMAIN removed, LAMBDA k : Count(removed[k][2])) + Sum(OpenRem, LAMBDA t : Count(c.p[t].out[1]))
\* what a scrape shows is consistent in itself
Whole ==
  Hist => \A k \in DOMAIN shown.last :
    LET r == Tail(shown.last[k])
        n == R!NB(Cx)
    IN  /\ \A j \in 1..n : r[j] <= r[j + 1]
        /\ r[n + 1] = r[n + 2]
Distinct == \A j, k \in DOMAIN shown.last : j # k => shown.last[j][1] # shown.last[k][1]
Ends == <>AllDone
=============================================================================
