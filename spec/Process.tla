------------------------------ MODULE Process ------------------------------
(***************************************************************************)
(* What a collector created for a process exports.                         *)
(*                                                                         *)
(* The operating system's report is the bytes of /proc/<pid>/stat and      *)
(* /proc/<pid>/limits (empty: there is none) and the number of descriptors *)
(* (-1: unknown). A process is identified by its pid and its start time:   *)
(* a pid may be used again.                                                *)
(***************************************************************************)
EXTENDS Decimal, FiniteSets, SequencesExt

RECURSIVE Split(_, _, _)
\* the words of s from i on; w: the one being read
Split(s, i, w) ==
  IF i > Len(s) THEN IF w = <<>> THEN <<>> ELSE <<w>>
  ELSE IF s[i] \in {32, 10} THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Split(s, i + 1, <<>>)
  ELSE Split(s, i + 1, Append(w, s[i]))

\* the fields of stat after the command, which ends at the last ')' and may contain anything
AfterComm(s) ==
  LET P == { i \in DOMAIN s : s[i] = 41 } IN
  IF P = {} THEN <<>> ELSE Split(s, 1 + (CHOOSE i \in P : \A j \in P : j <= i), <<>>)
Stat(s) ==
  LET f == AfterComm(s) IN
  IF Len(f) < 22 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, utime |-> f[12], stime |-> f[13], threads |-> f[18], start |-> f[20], vsize |-> f[21], rss |-> f[22]]

MaxOpen == <<77, 97, 120, 32, 111, 112, 101, 110, 32, 102, 105, 108, 101, 115>>
RECURSIVE LineAt(_, _)
LineAt(s, i) == IF i > Len(s) \/ s[i] = 10 THEN <<>> ELSE <<s[i]>> \o LineAt(s, i + 1)
SoftLimit(s) ==
  LET L == { i \in DOMAIN s : (i = 1 \/ s[i - 1] = 10) /\ i + 13 <= Len(s) /\ SubSeq(s, i, i + 13) = MaxOpen } IN
  IF L = {} THEN <<>>
  ELSE LET w == Split(LineAt(s, 14 + (CHOOSE i \in L : TRUE)), 1, <<>>) IN
       IF w = <<>> \/ ~IsNat(w[1]) THEN <<>> ELSE w[1]

--------------------------------------------------------------------------
(* const: [clk, page]; made: what was seen when the collector was created: [stat, btime]; seen: [stat, limits, fds].
   A family is <<name, value in decimal>>. *)
Known(made) == Stat(made.stat).ok
Same(made, seen) == Stat(made.stat).start = Stat(seen.stat).start
StartTime(const, made) ==
  IF Known(made) /\ IsNat(made.btime)
  THEN { <<"start_time_seconds", Add(Div(Stat(made.stat).start, const.clk), made.btime)>> } ELSE {}
Numbers(const, seen) ==
  LET st == Stat(seen.stat)
      soft == SoftLimit(seen.limits)
  IN  (IF soft = <<>> THEN {} ELSE { <<"max_fds", soft>> })
      \cup (IF ~st.ok THEN {} ELSE {
        <<"virtual_memory_bytes", st.vsize>>,
        <<"resident_memory_bytes", Mul(st.rss, const.page)>>,
        <<"cpu_seconds_total", Div(Add(st.utime, st.stime), const.clk)>>,
        <<"threads", st.threads>> })
\* slack: the collector itself may hold descriptors of the process it looks at
Fds(seen, slack, optional) ==
  (IF seen.fds < 0 \/ optional THEN { {} } ELSE {})
  \cup (IF seen.fds < 0 THEN {} ELSE { { <<"open_fds", DigitsOf(n)>> } : n \in { m \in (seen.fds - slack)..(seen.fds + slack) : m >= 0 } })

\* the documents (sets of families) allowed for one scrape
Allowed(const, made, seen, dirGone, slack, optional) ==
  LET all == { Numbers(const, seen) \cup StartTime(const, made) \cup d : d \in Fds(seen, slack, optional) } IN
  IF dirGone THEN { {} }
  ELSE IF ~Stat(seen.stat).ok
       \* nothing tells that it is still the same process
       THEN all \cup { {} }
  ELSE IF Known(made) /\ ~Same(made, seen) THEN { {} }
  ELSE IF ~Known(made) THEN all \cup { {} }
  ELSE all

Help(name) ==
  CASE name = "open_fds" -> "Number of open file descriptors."
    [] name = "max_fds" -> "Maximum number of open file descriptors."
    [] name = "virtual_memory_bytes" -> "Virtual memory size in bytes."
    [] name = "resident_memory_bytes" -> "Resident memory size in bytes."
    [] name = "cpu_seconds_total" -> "Total user and system CPU time spent in seconds."
    [] name = "threads" -> "Number of OS threads in the process."
    [] name = "start_time_seconds" -> "Start time of the process since unix epoch in seconds."
=============================================================================
