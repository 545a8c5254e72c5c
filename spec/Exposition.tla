---------------------------- MODULE Exposition ----------------------------
(***************************************************************************)
(* What a collection of metric groups must export: the families of a group *)
(* tree in order, under their composed names, and the samples of a family. *)
(* Readers of the output formats (TextFormat, ProtoWire) are compared with *)
(* this.                                                                   *)
(*                                                                         *)
(* A group tree: F a family (name, help, fam: index of its contents),      *)
(* how = W: only its samples are written, one by one, without a type;      *)
(* N a namespace, C composition, O/Z present and absent option, A shared   *)
(* pointer, R reference, L flattening (S: a sequence, as struct fields).   *)
(***************************************************************************)
EXTENDS Bytes, TextFormat, ProtoWire

NoHelp == <<-1>>

RECURSIVE Families(_, _)
Families(g, ns) ==
  CASE g.t = "F" -> <<[name |-> ns \o g.name, help |-> g.help, fam |-> g.fam, bare |-> "how" \in DOMAIN g /\ g.how = "W"]>>
    [] g.t = "N" -> Families(g.a, ns \o g.ns \o <<95>>)
    [] g.t = "C" -> Families(g.a, ns) \o Families(g.b, ns)
    [] g.t = "Z" -> <<>>
    [] g.t = "S" -> LET f[i \in 0..Len(g.s)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o Families(g.s[i], ns) IN f[Len(g.s)]
    [] g.t \in {"O", "A", "R", "L"} -> Families(g.a, ns)

RECURSIVE AllFamilies(_)
AllFamilies(trees) == IF trees = <<>> THEN <<>> ELSE Families(trees[1], <<>>) \o AllFamilies(Tail(trees))

--------------------------------------------------------------------------
(* a sample is <<what, set of label pairs, bound or <<>>, value>>; integers are decimal digits, floats limbs *)
CanonNaN(x) == IF IsNaN(x) THEN <<32752, 0, 0, 1>> ELSE x
\* the labels named in fl carry floats, given as limbs
Pairs(labels, fl) == { IF labels[i][1] \in fl THEN <<labels[i][1], CanonNaN(labels[i][2])>> ELSE labels[i] : i \in DOMAIN labels }

\* cumulative counts of a histogram: from the observations, or given
CumOf(f, s) ==
  IF s.v.raw THEN s.v.cum
  ELSE [i \in DOMAIN f.le |-> Dec(Cardinality({j \in DOMAIN s.v.obs : FLeq(s.v.obs[j], f.le[i])}))]
CountOf(s) == IF s.v.raw THEN s.v.count ELSE Dec(Len(s.v.obs))

\* buckets of one bound would be one sample: bounds that repeat, or are that of the last bucket, are written once
OwnBucket(f) == { i \in DOMAIN f.le : ~FEqual(f.le[i], IF i = Len(f.le) THEN Inf ELSE f.le[i + 1]) }
TextSamples(f) ==
  LET fl == Range(f.fl) IN
  IF f.kind # "hist"
  THEN { <<"value", Pairs(s.labels, fl), <<>>, IF f.kind = "fgauge" THEN CanonNaN(s.v) ELSE s.v>> : s \in Range(f.series) }
  ELSE UNION {
    LET cum == CumOf(f, s)
        l == Pairs(s.labels, fl)
    IN  { <<"bucket", l, CanonNaN(f.le[i]), cum[i]>> : i \in OwnBucket(f) }
        \cup { <<"bucket", l, Inf, CountOf(s)>>, <<"sum", l, <<>>, CanonNaN(s.v.sum)>>, <<"count", l, <<>>, CountOf(s)>> }
    : s \in Range(f.series) }
TextCount(f) == IF f.kind = "hist" THEN Len(f.series) * (Cardinality(OwnBucket(f)) + 3) ELSE Len(f.series)

TypeName(kind) == CASE kind = "counter" -> <<99,111,117,110,116,101,114>>
                    [] kind \in {"gauge", "fgauge"} -> <<103,97,117,103,101>>
                    [] kind = "hist" -> HISTOGRAM

\* tab: what each number token of the document stands for, as a float
NotANumber == <<-1, 0, 0, 0>>
Num(tab, tok) == LET S == {i \in DOMAIN tab : tab[i].tok = tok} IN
                 IF S = {} THEN NotANumber ELSE tab[CHOOSE i \in S : TRUE].val
\* an integer may be written as 5 or 5.0
Strip(tok) == IF Len(tok) > 2 /\ SubSeq(tok, Len(tok) - 1, Len(tok)) = <<46, 48>> THEN SubSeq(tok, 1, Len(tok) - 2) ELSE tok

LE == <<108, 101>>
ReadSample(f, s, tab) ==
  LET fl == Range(f.fl)
      ls == { IF s.labels[i][1] \in fl THEN <<s.labels[i][1], CanonNaN(Num(tab, s.labels[i][2]))>> ELSE s.labels[i]
              : i \in DOMAIN s.labels }
      float == s.what = "sum" \/ (s.what = "value" /\ f.kind = "fgauge")
      val == IF float THEN CanonNaN(Num(tab, s.val)) ELSE Strip(s.val)
  IN  IF s.what = "bucket"
      THEN LET b == { p \in ls : p[1] = LE } IN
           IF Cardinality(b) # 1 THEN <<"nole">>
           ELSE <<"bucket", ls \ b, CanonNaN(Num(tab, (CHOOSE p \in b : TRUE)[2])), val>>
      ELSE <<s.what, ls, <<>>, val>>

\* ws: the documentation had several lines, or is only known up to blanks
Squash(s) == SelectSeq(s, LAMBDA c : c \notin {32, 10, 9})
TextFamilyOk(want, f, got, tab, ws) ==
  /\ got.name = want.name
  /\ IF ws THEN Squash(got.help) = Squash(want.help) ELSE got.help = want.help
  /\ got.type = IF want.bare THEN NoText ELSE TypeName(f.kind)
  /\ Len(got.samples) = TextCount(f)
  /\ { ReadSample(f, got.samples[i], tab) : i \in DOMAIN got.samples } = TextSamples(f)

TextOk(trees, fams, bytes, tab, ws) ==
  LET all == AllFamilies(trees)
      \* nothing says that there is a family without a type, help and samples
      want == SelectSeq(all, LAMBDA w : /\ fams[w.fam].kind # "absent"
                                        /\ ~(w.bare /\ w.help = NoHelp /\ fams[w.fam].series = <<>>))
      absent == { w.name : w \in { x \in Range(all) : fams[x.fam].kind = "absent" } }
      read == ReadText(bytes)
      \* an absent family may leave its help, but neither a type nor samples
      got == SelectSeq(read.fams, LAMBDA g : ~(g.name \in absent /\ g.type = NoText /\ g.samples = <<>>))
  IN  /\ read.ok
      /\ Len(got) = Len(want)
      /\ \A i \in DOMAIN want : TextFamilyOk(want[i], fams[want[i].fam], got[i], tab, ws)

--------------------------------------------------------------------------
(* protobuf: families without samples leave no trace; every value is a double (s.d) *)
ProtoType(kind) == CASE kind = "counter" -> 0 [] OTHER -> 1
\* an empty help may be left out
HelpIs(h) == IF h = NoHelp THEN {NoHelp} ELSE IF h = <<>> THEN {NoHelp, <<>>} ELSE {h}
ProtoLabels(f, ls, tab) ==
  LET fl == Range(f.fl) IN
  { IF ls[i][1] \in fl THEN <<ls[i][1], CanonNaN(Num(tab, ls[i][2]))>> ELSE ls[i] : i \in DOMAIN ls }
ProtoFamilyOk(want, f, got, tab, ws) ==
  /\ got.ok
  /\ got.name = want.name
  /\ IF ws THEN Squash(got.help) \in { Squash(h) : h \in HelpIs(want.help) } ELSE got.help \in HelpIs(want.help)
  /\ got.type = ProtoType(f.kind)
  /\ Len(got.metrics) = Len(f.series)
  /\ \A i \in DOMAIN got.metrics :
       Len(got.metrics[i].labels) = Cardinality(ProtoLabels(f, got.metrics[i].labels, tab))
  /\ { <<m.kind, ProtoLabels(f, m.labels, tab), CanonNaN(m.val)>> : m \in Range(got.metrics) }
     = { <<f.kind = "counter", Pairs(s.labels, Range(f.fl)), CanonNaN(s.d)>> : s \in Range(f.series) }

ProtoOk(trees, fams, bytes, tab, ws) ==
  LET want == SelectSeq(AllFamilies(trees), LAMBDA w : fams[w.fam].series # <<>>)
      got == ReadDelimited(bytes)
  IN  /\ got.ok
      /\ Len(got.fams) = Len(want)
      /\ \A i \in DOMAIN want : ProtoFamilyOk(want[i], fams[want[i].fam], got.fams[i], tab, ws)
=============================================================================
