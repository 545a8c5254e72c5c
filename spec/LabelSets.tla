----------------------------- MODULE LabelSets -----------------------------
(***************************************************************************)
(* Label groups and series identities. A label set gives the groups inside *)
(* it identities (encode) and, when it is fixed, dense slots; families use *)
(* them to address series.                                                 *)
(*   groups: labels (<<name, value>> in order), inside, what the group     *)
(*   exports (shown), id (-1: rejected), dense (-1: none), what id and slot *)
(*   decode to;                                                            *)
(*   docs: a family of counters after increments by group, and after some   *)
(*   series were removed;                                                  *)
(*   all: a family in which every series was created at once.              *)
(***************************************************************************)
EXTENDS Bytes, TextFormat, FiniteSetsExt

Same(g, h) == g.labels = h.labels
Known(c) == { g \in Range(c.groups) : g.id >= 0 }

\* a group is given an identity exactly when it is inside, and decodes to itself
IdentityOk(c) ==
  \A g \in Range(c.groups) :
    /\ g.shown = g.labels /\ g.byref = g.labels
    /\ g.inside = "yes" => g.id >= 0
    /\ g.inside = "no" => g.id < 0
    /\ g.id >= 0 => g.dec = g.labels

\* identities are equal exactly when the labels are
Injective(K, Key(_)) ==
  LET pairs == { <<g.labels, Key(g)>> : g \in K } IN
  /\ Cardinality(pairs) = Cardinality({ p[1] : p \in pairs })
  /\ Cardinality(pairs) = Cardinality({ p[2] : p \in pairs })

DenseOk(c) ==
  c.card >= 0 =>
    /\ \A g \in Known(c) : g.dense \in 0..(c.card - 1) /\ g.dend = g.labels
    /\ Injective(Known(c), LAMBDA g : g.dense)
    /\ c.full => /\ { g.dense : g \in Known(c) } = 0..(c.card - 1)

\* the cardinality is the number of groups there can be (bound: -1 no limit, -3 the groups listed, -2 not judged)
BoundOk(c) ==
  c.bound # -2 => c.card = IF c.bound = -3 THEN Cardinality({ g.labels : g \in { h \in Range(c.groups) : h.inside = "yes" } }) ELSE c.bound

\* a set of values for one label: the same, for the numbers it gives its values
Values(c) == Range(c.values)
ValuesOk(c) ==
  LET K == { v \in Values(c) : v.enc >= 0 } IN
  /\ \A v \in Values(c) : v.shown = v.label /\ (v.inside <=> v.enc >= 0) /\ (v.enc >= 0 => v.dec = v.label)
  /\ LET pairs == { <<v.label, v.enc>> : v \in K } IN
       Cardinality(pairs) = Cardinality({ p[1] : p \in pairs }) /\ Cardinality(pairs) = Cardinality({ p[2] : p \in pairs })
  /\ c.counted \in {-2, c.card}
  \* all of them (-2), a sample of so many, or of a set without limit (-1)
  /\ IF c.of = -2 THEN { v.enc : v \in K } = 0..(c.card - 1) ELSE c.card = c.of
  /\ c.card >= 0 => \A v \in K : v.enc < c.card

--------------------------------------------------------------------------
RECURSIVE DecAdd(_, _, _)
DecAdd(a, b, carry) ==
  IF a = <<>> /\ b = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<49>>)
  ELSE LET x == IF a = <<>> THEN 0 ELSE Last(a) - 48
           y == IF b = <<>> THEN 0 ELSE Last(b) - 48
           s == x + y + carry
       IN Append(DecAdd(IF a = <<>> THEN a ELSE Front(a), IF b = <<>> THEN b ELSE Front(b), s \div 10), 48 + (s % 10))
Plus(a, b) == IF a = <<48>> THEN b ELSE IF b = <<48>> THEN a ELSE DecAdd(a, b, 0)

\* the samples a document must have: the sum of the increments of equal groups
Wanted(c, d, gone) ==
  LET I == { i \in DOMAIN c.groups : c.groups[i].id >= 0 }
      Out == { c.groups[i].labels : i \in { j \in I : gone[j] } }
      L == { c.groups[i].labels : i \in I } \ Out
      sum(l) == FoldSet(LAMBDA n, a : Plus(d.amounts[n], a), <<48>>, { n \in I : c.groups[n].labels = l })
  IN  { <<Range(l), sum(l)>> : l \in L }

Read(bytes) ==
  LET r == ReadText(bytes) IN
  IF ~r.ok \/ Len(r.fams) # 1 THEN { <<"unreadable">> }
  ELSE { <<Range(s.labels), s.val>> : s \in Range(r.fams[1].samples) }
Lines(bytes) == LET r == ReadText(bytes) IN IF r.ok /\ Len(r.fams) = 1 THEN Len(r.fams[1].samples) ELSE -1

None(c) == [i \in DOMAIN c.groups |-> FALSE]
FamilyOk(c, d) ==
  LET all == Wanted(c, d, None(c))
      left == Wanted(c, d, d.removed) IN
  /\ \A i \in DOMAIN c.groups : d.accepted[i] = (c.groups[i].id >= 0)
  \* what a family hands out for a group is equal exactly for equal groups
  /\ \A i \in DOMAIN c.groups : (d.lids[i] >= 0) = (c.groups[i].id >= 0)
  /\ LET pairs == { <<c.groups[i].labels, d.lids[i]>> : i \in { j \in DOMAIN c.groups : d.lids[j] >= 0 } } IN
       Cardinality(pairs) = Cardinality({ p[1] : p \in pairs }) /\ Cardinality(pairs) = Cardinality({ p[2] : p \in pairs })
  /\ d.series = Cardinality(all) /\ d.bound = c.card
  /\ Read(d.doc) = all /\ Lines(d.doc) = Cardinality(all)
  /\ Read(d.after) = left /\ Lines(d.after) = Cardinality(left)
  \* every third group is removed, by one of those equal to it
  /\ d.rep = "sparse" => \A i \in DOMAIN c.groups :
       (i % 3 = 2 /\ c.groups[i].id >= 0) => \E j \in DOMAIN c.groups : d.removed[j] /\ Same(c.groups[i], c.groups[j])
  /\ \A i \in DOMAIN c.groups : d.removed[i] => c.groups[i].id >= 0

\* a family in which every series was created: the ones not used stand at zero (zeros: how many of those are not in doc)
AllOk(c, d) ==
  LET K == { i \in DOMAIN c.groups : c.groups[i].id >= 0 }
      sum(l) == FoldSet(LAMBDA n, a : Plus(d.amounts[n], a), <<48>>, { n \in K : c.groups[n].labels = l })
      want == { <<Range(l), sum(l)>> : l \in { c.groups[i].labels : i \in K } }
      got == Read(d.doc) IN
  c.card > 0 =>
    /\ d.series = c.card
    /\ Lines(d.doc) + d.zeros = c.card /\ Cardinality(got) = Lines(d.doc)
    /\ { s \in want : s[2] # <<48>> } = { s \in got : s[2] # <<48>> }
    /\ (c.full /\ d.zeros = 0) => got = want
    /\ Cardinality({ s[1] : s \in got }) = Cardinality(got)
AllSeriesOk(c) == \A d \in Range(c.all) : AllOk(c, d)

\* an idle family: the number of live series, the size of a fixed set, and a scrape of exactly the live series
CountOk(c) ==
  "groups" \in DOMAIN c =>
    /\ BoundOk(c)
    /\ \A d \in Range(c.all) : c.card > 0 => d.series = c.card /\ Lines(d.doc) + d.zeros = c.card
    /\ \A d \in Range(c.docs) :
         LET all == Wanted(c, d, None(c))
             left == Wanted(c, d, d.removed) IN
         /\ d.series = Cardinality(all) /\ d.bound = c.card
         /\ Read(d.doc) = all /\ Lines(d.doc) = Cardinality(all)
         /\ Read(d.after) = left /\ Lines(d.after) = Cardinality(left)

\* the families of a set, whatever their representation, did what the same specification says
FamiliesOk(c) == "groups" \in DOMAIN c => AllSeriesOk(c) /\ \A d \in Range(c.docs) : FamilyOk(c, d)

SetOk(c) ==
  IF "values" \in DOMAIN c THEN ValuesOk(c) ELSE
  /\ IdentityOk(c) /\ BoundOk(c)
  /\ Injective(Known(c), LAMBDA g : g.id)
  /\ DenseOk(c)
  /\ \A d \in Range(c.docs) : FamilyOk(c, d)
  /\ AllSeriesOk(c)
=============================================================================
