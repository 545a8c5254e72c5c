----------------------------- MODULE ProcTrace -----------------------------
(* Judges recorded histories of collectors and scrapes against Process. *)
EXTENDS Exposition, TLC, Json, IOUtils
P == INSTANCE Process
Cases == JsonDeserialize(IOEnv.CASES)

\* the string of a name or help, by the table of the case
Word(c, b) == LET S == { k \in DOMAIN c.vocab : c.vocab[k].b = b } IN
              IF S = {} THEN "?" ELSE c.vocab[CHOOSE k \in S : TRUE].s

\* how a counter or a gauge of one sample without labels reads
TextFams(c, r) == { <<Word(c, f.name), f.samples[1].val>> : f \in Range(r.fams) }
TextGood(c, r) ==
  /\ r.ok
  /\ \A f \in Range(r.fams) :
       /\ Word(c, f.name) # "?" /\ Word(c, f.help) = P!Help(Word(c, f.name))
       /\ Len(f.samples) = 1 /\ f.samples[1].what = "value" /\ f.samples[1].labels = <<>>
       /\ \/ f.type = TypeName("gauge")
          \/ f.type = TypeName("counter") /\ Word(c, f.name) = "cpu_seconds_total"
  /\ Cardinality({ f.name : f \in Range(r.fams) }) = Len(r.fams)
ProtoFams(c, r) == { <<Word(c, f.name), f.metrics[1].val>> : f \in Range(r.fams) }
ProtoGood(c, r) ==
  /\ r.ok
  /\ \A f \in Range(r.fams) :
       /\ f.ok
       /\ Word(c, f.name) # "?" /\ Word(c, f.help) = P!Help(Word(c, f.name))
       /\ Len(f.metrics) = 1 /\ f.metrics[1].labels = <<>>
       /\ f.metrics[1].kind = (f.type = 0)
       /\ f.type = 1 \/ (f.type = 0 /\ Word(c, f.name) = "cpu_seconds_total")
  /\ Cardinality({ f.name : f \in Range(r.fams) }) = Len(r.fams)

\* what was seen when the collector of scrape j was created
MadeFor(ev, j) == LET M == { k \in 1..(j - 1) : ev[k].e = "make" /\ ev[k].col = ev[j].col } IN
                  ev[CHOOSE k \in M : \A l \in M : l <= k]
ScrapeOk(c, j) ==
  LET s == c.events[j]
      allowed == P!Allowed(c.const, MadeFor(c.events, j), s, s.gone, s.slack, s.optional)
      t == ReadText(s.text)
      p == ReadDelimited(s.proto)
  IN  /\ TextGood(c, t) /\ TextFams(c, t) \in allowed
      /\ ProtoGood(c, p) /\ ProtoFams(c, p) \in { { <<x[1], Num(c.tab, x[2])>> : x \in d } : d \in allowed }
VARIABLES i, j
Init == i \in DOMAIN Cases /\ j = 1
Next == j < Len(Cases[i].events) /\ j' = j + 1 /\ i' = i
Holds == Cases[i].events[j].e = "scrape" => (ScrapeOk(Cases[i], j) \/ ~PrintT(<<"BAD", Cases[i].id \o "@" \o ToString(j)>>))
=============================================================================
