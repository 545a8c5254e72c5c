------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* The client programs with which the registry is explored: the same sets  *)
(* are model checked against Registry (MCRegistry, VecImpl) and run on the *)
(* real code (the check driver reads them through ScenGen).                *)
(*                                                                         *)
(* A program is a sequence of units; a unit is a short sequence of         *)
(* operations that keeps the rules for clients: at most one guard per      *)
(* thread, no family operation of the same thread while it holds one.      *)
(***************************************************************************)
EXTENDS Floats, Sequences, FiniteSets

O(n, l, x) == [op |-> n, l |-> l, x |-> x]
U1(n, l, x) == <<O(n, l, x)>>
Scrape  == U1("scrape", 0, 0)
ScrapeY == U1("scrapey", 0, 0)
Card    == U1("card", 0, 0)

Held(l, x)  == <<O("acq", l, 0), O("gadd", 0, x), O("gread", 0, 0), O("rel", 0, 0)>>
HeldW(l, x) == <<O("acq", l, 0), O("gfin", 0, x)>>
HeldO(l)    == <<O("acq", l, 0), O("rel", 0, 0)>>
Timer(l, d, e) == <<O("tstart", l, 0), O("adv", 0, d), O(e, 0, 0)>>
\* ended while the clock goes on, by x at every reading
TimerX(l, d, e, x) == <<O("tstart", l, 0), O("adv", 0, d), O(e, 0, x)>>

\* a family of programs: which kinds, representations and hashers, which units, which set-ups
Fam(tag, kinds, reps, hashes, units, setups, fin, len) ==
  [tag |-> tag, kinds |-> kinds, reps |-> reps, hashes |-> hashes,
   units |-> units, setups |-> setups, fin |-> fin, len |-> len]

NoSetup == {<<>>}
Some0   == {<<>>, U1("upd", 0, 8)}
\* three other series: the next one makes the table of their shard grow
Full    == U1("upd", 2, 1) \o U1("upd", 3, 2) \o U1("upd", 4, 3)
Left == U1("upd", 2, 1) \o U1("upd", 3, 2) \o U1("upd", 4, 3) \o U1("upd", 5, 2) \o U1("upd", 6, 2) \o U1("upd", 7, 2)
        \o U1("upd", 8, 2) \o U1("upd", 9, 2) \o U1("rem", 3, 0) \o U1("rem", 4, 0) \o U1("rem", 5, 0) \o U1("rem", 6, 0)
        \o U1("rem", 7, 0) \o U1("rem", 8, 0) \o U1("rem", 9, 0)
FinRead == Scrape \o Card
FinAll  == Scrape \o Card \o U1("rem", 0, 0) \o U1("rem", 1, 0) \o Scrape \o Card

\* the representations, and the constructors that give them
SeqReps == {"sparse", "sparse:meta", "unbounded", "unbounded:meta", "dense", "dense:meta", "dense0", "auto", "auto:meta", "one"}
SeqDefaults == {"sparse:ls", "sparse:new", "unbounded:ls", "unbounded:new", "unbounded:dflt", "dense:ls", "dense:new",
                "auto:ls", "auto:new", "auto:dflt", "one:new", "one:dflt"}
SeqUnits == {Scrape, Card, U1("rem", 0, 0), U1("rem", 1, 0)}

Plan(prop) ==
  CASE prop = "C01" -> <<
    Fam("c1", {"counter"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd1", 0, 1), U1("upd", 0, 5), U1("updg", 0, 3), Held(0, 7), Scrape},
        Some0, FinRead, 2),
    Fam("g1", {"gauge"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd", 0, 5), U1("upd1", 0, 1), U1("sub", 0, 1), U1("sub", 0, 3), U1("set", 0, 20), U1("updg", 0, -2),
         Held(0, 7), Scrape},
        Some0, FinRead, 2) >>
  [] prop = "C02" -> <<
    Fam("f1", {"fgauge"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd", 0, 5), U1("upd1", 0, 4), U1("sub", 0, 4), U1("sub", 0, 3), U1("set", 0, 20), U1("updg", 0, -2),
         U1("updg", 0, 3), Held(0, 7), Scrape},
        Some0, FinRead, 2),
    Fam("f2", {"fgauge"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd", 0, 5), U1("upd", 0, NaN), U1("upd", 0, PInf), U1("sub", 0, PInf), U1("set", 0, NInf), U1("set", 0, NaN),
         U1("set", 0, 4), U1("updg", 0, NInf), Held(0, 7), Scrape},
        Some0 \cup {U1("set", 0, NaN), U1("upd", 0, PInf)}, FinRead, 2) >>
  [] prop = "C03" -> <<
    Fam("h1", {"hist"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd", 0, 2), U1("upd", 0, 6), U1("upd", 0, 20), U1("updg", 0, 4), ScrapeY, Scrape},
        Some0, FinRead, 2),
    Fam("h2", {"hist"}, {"one", "sparse", "dense"}, {"spread"},
        {U1("upd", 0, 2), U1("upd", 0, NaN), U1("upd", 0, PInf), U1("updg", 0, NInf), ScrapeY, Scrape},
        Some0 \cup {U1("upd", 0, NaN), U1("upd", 0, NInf)}, FinRead, 2) >>
  [] prop = "C06" -> <<
    Fam("n1", {"counter", "hist"}, {"sparse", "dense", "unbounded", "auto"}, {"spread", "same"},
        {U1("upd", 0, 2), U1("touch", 0, 0), U1("upd", 1, 6), HeldW(0, 3), HeldO(1), ScrapeY, Card},
        {<<>>, Full}, FinAll, 2) >>
  [] prop = "C07" -> <<
    Fam("r1", {"counter", "hist", "fgauge"}, {"sparse", "unbounded"}, {"spread", "same"},
        {U1("upd", 0, 2), U1("upd", 1, 6), U1("rem", 0, 0), HeldW(0, 3), Scrape, Card},
        Some0 \cup {Full}, FinAll, 2),
    Fam("r2", {"gauge"}, {"dense", "dense0", "one"}, {"spread"},
        {U1("upd", 0, 2), U1("rem", 0, 0), Scrape, Card},
        Some0, FinRead, 2),
    \* a shard most of whose series have left
    Fam("r3", {"counter", "gauge"}, {"sparse", "unbounded"}, {"spread", "same"},
        {U1("upd", 0, 2), U1("upd", 2, 6), U1("rem", 2, 0), HeldW(2, 3), Scrape},
        {Left}, U1("upd", 2, 1) \o Scrape \o Card \o U1("rem", 2, 0) \o U1("rem", 3, 0) \o Scrape \o Card, 1) >>
  [] prop = "C08" -> <<
    Fam("s1", {"counter", "gauge", "hist"}, {"sparse", "dense", "dense0", "unbounded"}, {"spread", "same"},
        {U1("upd", 0, 2), U1("upd", 1, 6), U1("rem", 0, 0), U1("rem", 1, 0), ScrapeY, Card},
        {U1("upd", 0, 8), U1("upd", 0, 8) \o U1("upd", 1, 3)}, FinAll, 2) >>
  [] prop = "C09" -> <<
    Fam("c9", {"counter"}, SeqReps \cup SeqDefaults, {"spread", "same"},
        {U1("upd", 0, 5), U1("upd1", 0, 1), U1("upd", 1, 6), U1("touch", 0, 0), U1("init", 0, 0), HeldW(1, 3), Held(0, 7)}
          \cup SeqUnits, NoSetup, FinAll, 3),
    Fam("g9", {"gauge"}, SeqReps \cup SeqDefaults, {"spread", "same"},
        {U1("upd", 0, 5), U1("upd1", 0, 1), U1("upd", 1, -6), U1("sub", 0, 1), U1("sub", 1, 3), U1("set", 0, 20),
         U1("set", 1, -1), U1("touch", 1, 0), U1("init", 0, 0), HeldW(1, 4)}
          \cup SeqUnits, NoSetup, FinAll, 3),
    Fam("f9", {"fgauge"}, SeqReps \cup SeqDefaults, {"spread", "same"},
        {U1("upd", 0, 5), U1("upd1", 0, 4), U1("upd", 1, -6), U1("sub", 0, 4), U1("sub", 1, 3), U1("set", 0, 20),
         U1("set", 1, -1), U1("touch", 1, 0), U1("init", 0, 0), HeldW(1, 4),
         U1("upd", 0, PInf), U1("sub", 1, NaN), U1("set", 0, NInf)}
          \cup SeqUnits, NoSetup, FinAll, 3),
    Fam("h9", {"hist"}, SeqReps, {"spread", "same"},
        {U1("upd", 0, 4), U1("upd", 0, 0), U1("upd", 1, 5), U1("upd", 0, 20), U1("upd", 1, -3), U1("touch", 0, 0),
         U1("init", 0, 0), HeldW(1, 8), HeldW(0, -1), U1("upd", 0, NaN), U1("upd", 1, PInf), HeldW(0, NInf), Timer(0, 3, "tobs"), Timer(1, 9, "tdrop"), Timer(0, 1, "tforget"),
         Timer(0, 0, "tobs"), Timer(1, 0, "tdrop"), HeldW(1, 0)}
          \cup SeqUnits, NoSetup, FinAll, 3) >>
  [] prop = "C15" -> <<
    Fam("t1", {"hist"}, {"one", "sparse", "dense"}, {"spread"},
        {Timer(0, 3, "tobs"), Timer(0, 6, "tdrop"), Timer(0, 20, "tpanic"), Timer(0, 2, "tforget"),
         Timer(0, 0, "tobs"), Timer(0, 0, "tdrop"), Timer(0, 4, "tpanic"), U1("upd", 0, 2), U1("rem", 0, 0), ScrapeY},
        Some0, FinAll, 2),
    Fam("t2", {"hist"}, {"one", "sparse", "dense"}, {"spread"},
        {TimerX(0, 3, "tobsx", 2), TimerX(0, 0, "tobsx", 7), U1("upd", 0, 2), ScrapeY},
        Some0, FinAll, 1) >>
  [] prop = "C20" -> <<
    Fam("d1", {"counter", "hist"}, {"sparse", "unbounded"}, {"same", "spread"},
        {U1("upd", 0, 2), U1("upd", 1, 6), U1("rem", 0, 0), HeldO(0), ScrapeY, Card, U1("pscrape", 0, 3)},
        Some0, FinAll, 2),
    Fam("d2", {"hist"}, {"sparse", "dense", "one"}, {"spread"},
        {U1("upd", 0, 2), Timer(0, 3, "tdrop"), Timer(0, 20, "tpanic"), U1("rem", 0, 0), HeldW(0, 3), ScrapeY,
         U1("pscrape", 0, 3), U1("pscrape", 0, 9)},
        NoSetup, FinAll, 2),
    Fam("d3", {"fgauge", "counter"}, {"dense", "dense0"}, {"spread"},
        {U1("upd", 0, 2), U1("upd", 1, 6), U1("rem", 0, 0), HeldO(0), Scrape, Card, U1("pscrape", 0, 2)},
        NoSetup, FinAll, 2) >>

\* what the conserving families of programs are for the model checker (smaller)
Units(f) == f.units
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
ThreadPrograms(f, n) == {Cat(s) : s \in UNION {[1..k -> f.units] : k \in 1..n}}
=============================================================================
