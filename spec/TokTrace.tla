------------------------------ MODULE TokTrace ------------------------------
(* Judges documents recorded from the runtime collectors against Runtimes. *)
EXTENDS Exposition, TLC, Json, IOUtils
R == INSTANCE Runtimes
Cases == JsonDeserialize(IOEnv.CASES)

\* bytes of a word, by the table of the case
Spell(c, s) == c.vocab[CHOOSE k \in DOMAIN c.vocab : c.vocab[k].s = s].b
Parts == { <<"", <<>>>>, <<"_count", COUNT>>, <<"_sum", SUM>>, <<"_bucket", BUCKET>> }
Wanted(c) == IF c.net THEN R!Families \o R!NetFamilies ELSE R!Families
FullName(c, n) == c.ns \o Spell(c, n)

\* a sample line of family n
IsSum(n, suf) == n = "worker_mean_poll_time_seconds" \/ suf = "_sum"
SampleIn(c, n, r) ==
  LET suf == { x \in Parts : r.name = FullName(c, n) \o x[2] } IN
  IF suf = {} THEN <<"?">>
  ELSE LET s == (CHOOSE x \in suf : TRUE)[1]
           ls == { IF r.labels[i][1] = LE THEN <<LE, CanonNaN(Num(c.tab, r.labels[i][2]))>> ELSE r.labels[i] : i \in DOMAIN r.labels }
       IN  IF Cardinality(ls) # Len(r.labels) THEN <<"?">>
           ELSE <<s, ls, IF IsSum(n, s) THEN Num(c.tab, r.val) ELSE r.val>>

\* the document split by family: one header (help, type) each, then samples
IsComment(r) == r.t = "c" /\ Comment(r.text).t # "skip"
RECURSIVE Blocks(_, _, _)
Blocks(recs, i, acc) ==
  IF i > Len(recs) THEN [ok |-> TRUE, bs |-> acc]
  ELSE LET r == recs[i] IN
       IF r.t = "c" THEN
         LET m == Comment(r.text)
             n == Len(acc) IN
         IF m.t = "skip" THEN Blocks(recs, i + 1, acc)
         ELSE IF m.t = "bad" THEN [ok |-> FALSE, bs |-> acc]
         ELSE LET fresh == n = 0 \/ acc[n].name # m.name
                  a == IF fresh THEN Append(acc, [name |-> m.name, help |-> NoText, type |-> NoText, samples |-> <<>>]) ELSE acc
                  k == Len(a) IN
              IF a[k].samples # <<>> \/ (m.t = "help" /\ a[k].help # NoText) \/ (m.t = "type" /\ a[k].type # NoText)
              THEN [ok |-> FALSE, bs |-> a]
              ELSE Blocks(recs, i + 1, IF m.t = "help" THEN [a EXCEPT ![k].help = m.text] ELSE [a EXCEPT ![k].type = m.text])
       ELSE IF acc = <<>> THEN [ok |-> FALSE, bs |-> acc]
       ELSE Blocks(recs, i + 1, [acc EXCEPT ![Len(acc)].samples = Append(@, r)])

TypeIs(kind, t) == IF kind = "poll" THEN t \in {NoText, HISTOGRAM} ELSE t = TypeName(kind)
TextRight(c) ==
  LET s == Scan(c.text)
      d == Blocks(s.out, 1, <<>>)
      w == Wanted(c)
  IN  /\ s.st = "bol" /\ d.ok
      /\ Len(d.bs) = Len(w)
      /\ \A i \in DOMAIN w :
           \E j \in DOMAIN d.bs :
             /\ d.bs[j].name = FullName(c, w[i][1])
             /\ d.bs[j].help = Spell(c, R!Help(w[i][1]))
             /\ TypeIs(w[i][2], d.bs[j].type)
             /\ R!SameBag([k \in DOMAIN d.bs[j].samples |-> SampleIn(c, w[i][1], d.bs[j].samples[k])], R!AllSamples(w[i][1], c.rts))

\* protobuf: messages of one name are read together
ProtoSample(c, counter, suf, m) ==
  <<suf, { IF m.labels[i][1] = LE THEN <<LE, CanonNaN(Num(c.tab, m.labels[i][2]))>> ELSE m.labels[i] : i \in DOMAIN m.labels },
    m.val, m.kind>>
AsDouble(c, n, s) == IF IsSum(n, s[1]) THEN s[3] ELSE Num(c.tab, s[3])
ProtoRight(c) ==
  LET d == ReadDelimited(c.proto)
      w == Wanted(c)
      names == { <<FullName(c, w[i][1]) \o x[2], w[i], x[1]>> : i \in DOMAIN w, x \in Parts }
      \* the samples of all messages of a name
      Of_(nm) == FlattenSeq([j \in DOMAIN d.fams |-> IF d.fams[j].name = nm THEN d.fams[j].metrics ELSE <<>>])
  IN  /\ d.ok
      /\ \A j \in DOMAIN d.fams :
           /\ d.fams[j].ok
           /\ d.fams[j].metrics # <<>>
           /\ \E x \in names :
                /\ x[1] = d.fams[j].name
                /\ x[3] = "" => d.fams[j].help = Spell(c, R!Help(x[2][1]))
           /\ \A m \in Range(d.fams[j].metrics) : m.kind = (d.fams[j].type = 0)
           /\ d.fams[j].type \in {0, 1}
      /\ \A i \in DOMAIN w :
           LET n == w[i][1]
               want == R!AllSamples(n, c.rts)
               \* every number can be read
               vals == [k \in DOMAIN want |-> <<want[k][1], want[k][2], AsDouble(c, n, want[k]),
                                                w[i][2] = "counter" \/ want[k][1] \in {"_count", "_bucket"}>>]
               got == FlattenSeq([x \in 1..4 |->
                        LET sf == <<<<"", <<>>>>, <<"_count", COUNT>>, <<"_sum", SUM>>, <<"_bucket", BUCKET>>>>[x] IN
                        LET ms == Of_(FullName(c, n) \o sf[2]) IN
                        IF w[i][2] # "poll" /\ sf[1] # "" THEN <<>> ELSE [k \in DOMAIN ms |-> ProtoSample(c, TRUE, sf[1], ms[k])]])
           IN R!SameBag(got, vals)
      \* a family that is not split has one message
      /\ \A i, j \in DOMAIN d.fams : i # j /\ d.fams[i].name = d.fams[j].name
           => \E x \in names : x[1] = d.fams[i].name /\ x[2][2] = "poll"

Right(c) == IF c.k = "text" THEN TextRight(c) ELSE ProtoRight(c)
\* opt: the last one was being registered at the time of the scrape
Ok(c) == Right(c) \/ (c.opt /\ Right([c EXCEPT !.rts = Front(@)]))
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Holds == Ok(Cases[i]) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
