----------------------------- MODULE TextFormat -----------------------------
(***************************************************************************)
(* A reader of the Prometheus text exposition format (0.0.4): an automaton *)
(* over the bytes of a document that yields comments and samples, and a    *)
(* second one over those that assembles families. Strict where readers     *)
(* are: escapes, names, a line feed after the last line, headers before    *)
(* samples; a sample that is not of the family announced just before it    *)
(* starts a family without help and type.                                  *)
(***************************************************************************)
EXTENDS Bytes

Blank(c) == c \in {32, 9}
Start == [st |-> "bol", tok |-> <<>>, name |-> <<>>, labels |-> <<>>, lname |-> <<>>, out |-> <<>>]

Bad(s) == [s EXCEPT !.st = "bad"]
Emit(s, val) == [s EXCEPT !.st = "bol", !.tok = <<>>, !.name = <<>>, !.labels = <<>>,
                          !.out = Append(@, [t |-> "s", name |-> s.name, labels |-> s.labels, val |-> val])]

Step(s, c) ==
  CASE s.st = "bol" ->
         IF c = 10 \/ Blank(c) THEN s
         ELSE IF c = 35 THEN [s EXCEPT !.st = "cmt", !.tok = <<>>]
         ELSE IF NameStart(c) THEN [s EXCEPT !.st = "name", !.tok = <<c>>]
         ELSE Bad(s)
    [] s.st = "cmt" ->
         IF c = 10 THEN [s EXCEPT !.st = "bol", !.tok = <<>>, !.out = Append(@, [t |-> "c", text |-> s.tok])]
         ELSE [s EXCEPT !.tok = Append(@, c)]
    [] s.st = "name" ->
         IF NameChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
         ELSE LET n == [s EXCEPT !.name = s.tok, !.tok = <<>>] IN
              IF c = 123 THEN [n EXCEPT !.st = "lab"]
              ELSE IF Blank(c) THEN [n EXCEPT !.st = "pre"]
              ELSE Bad(s)
    [] s.st = "pre" ->   \* between the name and labels or value
         IF Blank(c) THEN s
         ELSE IF c = 123 /\ s.labels = <<>> THEN [s EXCEPT !.st = "lab"]
         ELSE IF c = 10 THEN Bad(s)
         ELSE [s EXCEPT !.st = "val", !.tok = <<c>>]
    [] s.st = "lab" ->
         IF Blank(c) THEN s
         ELSE IF c = 125 THEN [s EXCEPT !.st = "preval"]
         ELSE IF LabelStart(c) THEN [s EXCEPT !.st = "lname", !.tok = <<c>>]
         ELSE Bad(s)
    [] s.st = "lname" ->
         IF LabelChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
         ELSE IF c = 61 THEN [s EXCEPT !.st = "eq", !.lname = s.tok, !.tok = <<>>]
         ELSE Bad(s)
    [] s.st = "eq" ->
         IF c = 34 THEN [s EXCEPT !.st = "lval", !.tok = <<>>] ELSE Bad(s)
    [] s.st = "lval" ->
         IF c = 92 THEN [s EXCEPT !.st = "esc"]
         ELSE IF c = 34 THEN [s EXCEPT !.st = "next", !.labels = Append(@, <<s.lname, s.tok>>), !.tok = <<>>]
         ELSE IF c = 10 THEN Bad(s)
         ELSE [s EXCEPT !.tok = Append(@, c)]
    [] s.st = "esc" ->
         IF c \in {92, 34} THEN [s EXCEPT !.st = "lval", !.tok = Append(@, c)]
         ELSE IF c = 110 THEN [s EXCEPT !.st = "lval", !.tok = Append(@, 10)]
         ELSE Bad(s)
    [] s.st = "next" ->
         IF c = 44 THEN [s EXCEPT !.st = "lab"]
         ELSE IF c = 125 THEN [s EXCEPT !.st = "preval"]
         ELSE Bad(s)
    [] s.st = "preval" ->
         IF Blank(c) THEN s
         ELSE IF c = 10 THEN Bad(s)
         ELSE [s EXCEPT !.st = "val", !.tok = <<c>>]
    [] s.st = "val" ->
         IF c = 10 THEN Emit(s, s.tok)
         ELSE IF Blank(c) THEN [s EXCEPT !.st = "trail"]
         ELSE [s EXCEPT !.tok = Append(@, c)]
    [] s.st = "trail" ->   \* no time stamps are ever recorded
         IF c = 10 THEN Emit(s, s.tok) ELSE IF Blank(c) THEN s ELSE Bad(s)
    [] OTHER -> s

Scan(bytes) == FoldLeft(Step, Start, bytes)

--------------------------------------------------------------------------
(* comments: HELP and TYPE; everything else is ignored *)
HELP == <<72, 69, 76, 80>>
TYPE == <<84, 89, 80, 69>>
Types == { <<99,111,117,110,116,101,114>>, <<103,97,117,103,101>>, <<104,105,115,116,111,103,114,97,109>>,
           <<115,117,109,109,97,114,121>>, <<117,110,116,121,112,101,100>> }
HISTOGRAM == <<104,105,115,116,111,103,114,97,109>>

\* first position >= i where the line is (is not) blank; Len + 1 if there is none
RECURSIVE SkipB(_, _), SkipW(_, _)
SkipB(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN SkipB(s, i + 1) ELSE i
SkipW(s, i) == IF i <= Len(s) /\ ~Blank(s[i]) THEN SkipW(s, i + 1) ELSE i

\* HELP text: only \\ and \n are escapes
HelpStep(a, c) ==
  IF a.st = "esc" THEN
    IF c = 92 THEN [st |-> "", s |-> Append(a.s, 92)]
    ELSE IF c = 110 THEN [st |-> "", s |-> Append(a.s, 10)]
    ELSE [a EXCEPT !.st = "bad"]
  ELSE IF a.st = "" THEN
    IF c = 92 THEN [a EXCEPT !.st = "esc"] ELSE [a EXCEPT !.s = Append(@, c)]
  ELSE a

Comment(text) ==
  LET i == SkipB(text, 1)
      j == SkipW(text, i)
      k == SkipB(text, j)
      l == SkipW(text, k)
      m == SkipB(text, l)
      word == SubSeq(text, i, j - 1)
      name == SubSeq(text, k, l - 1)
      rest == SubSeq(text, m, Len(text))
  IN  CASE word = HELP ->
             LET h == FoldLeft(HelpStep, [st |-> "", s |-> <<>>], rest) IN
             IF ValidName(name) /\ h.st = "" THEN [t |-> "help", name |-> name, text |-> h.s] ELSE [t |-> "bad"]
        [] word = TYPE ->
             IF ValidName(name) /\ rest \in Types THEN [t |-> "type", name |-> name, text |-> rest] ELSE [t |-> "bad"]
        [] OTHER -> [t |-> "skip"]

--------------------------------------------------------------------------
(* families *)
NoText == <<-1>>
BUCKET == <<95, 98, 117, 99, 107, 101, 116>>
SUM    == <<95, 115, 117, 109>>
COUNT  == <<95, 99, 111, 117, 110, 116>>

Open(fams, name) ==
  IF fams # <<>> /\ Last(fams).name = name /\ Last(fams).samples = <<>> THEN fams
  ELSE Append(fams, [name |-> name, help |-> NoText, type |-> NoText, samples |-> <<>>])

SampleOf(f, s) ==
  CASE s.name = f.name /\ f.type # HISTOGRAM           -> "value"
    [] f.type = HISTOGRAM /\ s.name = f.name \o BUCKET -> "bucket"
    [] f.type = HISTOGRAM /\ s.name = f.name \o SUM    -> "sum"
    [] f.type = HISTOGRAM /\ s.name = f.name \o COUNT  -> "count"
    [] OTHER                                           -> "bad"

AddRec(a, r) ==
  IF ~a.ok THEN a
  ELSE IF r.t = "c" THEN
    LET c == Comment(r.text) IN
    CASE c.t = "bad"  -> [a EXCEPT !.ok = FALSE]
      [] c.t = "skip" -> a
      [] OTHER ->
         LET fs == Open(a.fams, c.name)
             n == Len(fs) IN
         IF c.t = "help"
         THEN [ok |-> fs[n].help = NoText, fams |-> [fs EXCEPT ![n].help = c.text]]
         ELSE [ok |-> fs[n].type = NoText, fams |-> [fs EXCEPT ![n].type = c.text]]
  ELSE LET \* a sample of no family so far: one without a type
           fs == IF a.fams = <<>> \/ SampleOf(Last(a.fams), r) = "bad"
                 THEN Append(a.fams, [name |-> r.name, help |-> NoText, type |-> NoText, samples |-> <<>>]) ELSE a.fams
           n == Len(fs)
           k == SampleOf(fs[n], r)
           s == [what |-> k, labels |-> r.labels, val |-> r.val] IN
       IF k = "bad" \/ \E i, j \in DOMAIN r.labels : i # j /\ r.labels[i][1] = r.labels[j][1]
       THEN [a EXCEPT !.ok = FALSE]
       ELSE [a EXCEPT !.fams = [fs EXCEPT ![n].samples = Append(@, s)]]

\* [ok, fams]
ReadText(bytes) ==
  LET s == Scan(bytes) IN
  IF s.st # "bol" THEN [ok |-> FALSE, fams |-> <<>>, at |-> s]
  ELSE LET a == FoldLeft(AddRec, [ok |-> TRUE, fams |-> <<>>], s.out) IN
       [ok |-> a.ok, fams |-> a.fams, at |-> s]
=============================================================================
