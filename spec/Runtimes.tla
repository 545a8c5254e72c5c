------------------------------ MODULE Runtimes ------------------------------
(***************************************************************************)
(* What a collector of runtimes exports. A runtime r reports about itself: *)
(* thread counts (small numbers), counters and depths (decimal), times     *)
(* (floats as limbs), for every worker too; it is registered under a name  *)
(* ("none": it has none). A collector is the sequence of its registrations.*)
(*                                                                         *)
(* A sample is <<suffix, labels, value>>; labels are pairs of byte strings *)
(* except le, which is a float. Words are decimal or ASCII byte strings.   *)
(***************************************************************************)
EXTENDS Decimal, FiniteSets, SequencesExt

RUNTIME == <<114,117,110,116,105,109,101>>
WORKER == <<119,111,114,107,101,114>>
KIND == <<107,105,110,100>>
OVERFLOW == <<111,118,101,114,102,108,111,119>>
LE == <<108,101>>
BLOCKING == <<98,108,111,99,107,105,110,103>>
IDLE == <<105,100,108,101>>
INJECTION == <<105,110,106,101,99,116,105,111,110>>
REMOTE == <<114,101,109,111,116,101>>
TRUE_ == <<116,114,117,101>>
FALSE_ == <<102,97,108,115,101>>

Named(r) == IF r.named THEN { <<RUNTIME, r.name>> } ELSE {}
S(r, labels, v) == <<"", Named(r) \cup labels, v>>
Workers(r, f(_)) == [i \in DOMAIN r.w |-> f(i)]
Wk(i) == <<WORKER, DigitsOf(i - 1)>>
Minus(a, b) == IF a > b THEN a - b ELSE 0

RECURSIVE CumTo(_, _)
CumTo(bs, k) == IF k = 0 THEN Zero ELSE Add(CumTo(bs, k - 1), bs[k])

\* the samples of one family for one runtime; a family name is a string, the kind is counter, gauge, fgauge or poll
Families ==
  << <<"threads", "gauge">>, <<"active_tasks", "gauge">>, <<"queued_tasks", "gauge">>, <<"scheduled_tasks_total", "counter">>,
     <<"budget_forced_yield_count", "counter">>, <<"worker_mean_poll_time_seconds", "fgauge">>, <<"worker_noop_count", "counter">>,
     <<"worker_park_count", "counter">>, <<"worker_steal_count", "counter">>, <<"worker_steal_operations_count", "counter">>,
     <<"worker_poll_time_seconds", "poll">> >>
NetFamilies ==
  << <<"registered_fds_total", "counter">>, <<"deregistered_fds_total", "counter">>, <<"io_ready_events_total", "counter">> >>
Samples(name, r) ==
  CASE name = "threads" ->
         << S(r, { <<KIND, WORKER>> }, DigitsOf(Len(r.w))),
            S(r, { <<KIND, IDLE>> }, DigitsOf(r.idle)),
            S(r, { <<KIND, BLOCKING>> }, DigitsOf(Minus(r.blocking, r.idle))) >>
    [] name = "active_tasks" -> << S(r, {}, r.active) >>
    [] name = "queued_tasks" ->
         << S(r, { <<KIND, BLOCKING>> }, r.bq), S(r, { <<KIND, INJECTION>> }, r.inj) >>
         \o Workers(r, LAMBDA i : S(r, { <<KIND, DigitsOf(i - 1)>> }, r.w[i].depth))
    [] name = "scheduled_tasks_total" ->
         << S(r, { <<WORKER, REMOTE>>, <<OVERFLOW, TRUE_>> }, r.remote) >>
         \o Workers(r, LAMBDA i : S(r, { Wk(i), <<OVERFLOW, FALSE_>> }, r.w[i].local))
         \o Workers(r, LAMBDA i : S(r, { Wk(i), <<OVERFLOW, TRUE_>> }, r.w[i].over))
    [] name = "budget_forced_yield_count" -> << S(r, {}, r.yields) >>
    [] name = "worker_mean_poll_time_seconds" -> Workers(r, LAMBDA i : S(r, { Wk(i) }, r.w[i].mean))
    [] name = "worker_noop_count" -> Workers(r, LAMBDA i : S(r, { Wk(i) }, r.w[i].noop))
    [] name = "worker_park_count" -> Workers(r, LAMBDA i : S(r, { Wk(i) }, r.w[i].park))
    [] name = "worker_steal_count" -> Workers(r, LAMBDA i : S(r, { Wk(i) }, r.w[i].steal))
    [] name = "worker_steal_operations_count" -> Workers(r, LAMBDA i : S(r, { Wk(i) }, r.w[i].ops))
    [] name = "worker_poll_time_seconds" ->
         FlattenSeq(Workers(r, LAMBDA i :
           << <<"_count", Named(r) \cup { Wk(i) }, r.w[i].polls>>, <<"_sum", Named(r) \cup { Wk(i) }, r.w[i].busy>> >>
           \o (IF r.hist THEN [k \in DOMAIN r.le |-> <<"_bucket", Named(r) \cup { Wk(i), <<LE, r.le[k]>> }, CumTo(r.w[i].buckets, k)>>]
               ELSE <<>>)))
    [] name = "registered_fds_total" -> << S(r, {}, r.io[1]) >>
    [] name = "deregistered_fds_total" -> << S(r, {}, r.io[2]) >>
    [] name = "io_ready_events_total" -> << S(r, {}, r.io[3]) >>
AllSamples(name, rs) == FlattenSeq([i \in DOMAIN rs |-> Samples(name, rs[i])])

Help(name) ==
  CASE name = "threads" -> "number of threads used by the runtime"
    [] name = "active_tasks" -> "number of active tasks spawned in the runtime"
    [] name = "queued_tasks" -> "number of tasks currently in a queue"
    [] name = "scheduled_tasks_total" -> "total number of tasks scheduled into the runtime"
    [] name = "budget_forced_yield_count" -> "number of tasks forced to yield after exhausting their budget"
    [] name = "worker_mean_poll_time_seconds" -> "estimated weighted moving average of the poll time for this worker"
    [] name = "worker_noop_count" -> "number of times the given worker thread woke up with no work"
    [] name = "worker_park_count" -> "number of times the given worker thread has parked"
    [] name = "worker_steal_count" -> "number of tasks the given worker thread has stolen"
    [] name = "worker_steal_operations_count" -> "number of times the given worker thread has attempted to steal tasks"
    [] name = "worker_poll_time_seconds" -> "time this runtime thread has spent polling tasks"
    [] name = "registered_fds_total" -> "total number of file descriptors that have been registered in the runtime"
    [] name = "deregistered_fds_total" -> "total number of file descriptors that have been deregistered from the runtime"
    [] name = "io_ready_events_total" -> "total number of ready events the runtime's IO driver has processed"

\* as many of each: two sequences with the same elements
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) \cup Range(b) : Cardinality({ i \in DOMAIN a : a[i] = x }) = Cardinality({ i \in DOMAIN b : b[i] = x })
=============================================================================
