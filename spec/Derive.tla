------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* What the derived label of an enum must be: the words of an identifier,   *)
(* the eight renaming rules, and the value each variant exports.            *)
(* An identifier is cut at underscores, before an upper case letter that    *)
(* follows a lower case one (digits keep the case of what precedes them),   *)
(* and before the last of several upper case letters followed by a lower    *)
(* case one.                                                                *)
(***************************************************************************)
EXTENDS Bytes

Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
ToUpper(c) == IF Lower(c) THEN c - 32 ELSE c
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
Up(w) == [i \in DOMAIN w |-> ToUpper(w[i])]
Low(w) == [i \in DOMAIN w |-> ToLower(w[i])]
Cap(w) == [i \in DOMAIN w |-> IF i = 1 THEN ToUpper(w[i]) ELSE ToLower(w[i])]

\* pieces between underscores, without empty ones
RECURSIVE Pieces(_, _)
Pieces(s, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[1] = 95 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Pieces(Tail(s), <<>>)
  ELSE Pieces(Tail(s), Append(cur, s[1]))

RECURSIVE Cut(_, _, _)
Cut(s, cur, mode) ==
  IF s = <<>> THEN <<>>
  ELSE LET c == s[1] IN
  IF Len(s) = 1 THEN <<Append(cur, c)>>
  ELSE LET next == s[2]
           m == IF Lower(c) THEN "lower" ELSE IF Upper(c) THEN "upper" ELSE mode IN
  IF m = "lower" /\ Upper(next) THEN <<Append(cur, c)>> \o Cut(Tail(s), <<>>, "none")
  ELSE IF mode = "upper" /\ Upper(c) /\ Lower(next) THEN <<cur>> \o Cut(Tail(s), <<c>>, "none")
  ELSE Cut(Tail(s), Append(cur, c), m)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Words(s) == LET p == Pieces(s, <<>>) IN Concat([i \in DOMAIN p |-> Cut(p[i], <<>>, "none")])

RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
Each(ws, F(_)) == [i \in DOMAIN ws |-> F(ws[i])]

Apply(rule, s) ==
  LET w == Words(s) IN
  CASE rule = "snake_case"        -> Join(Each(w, Low), <<95>>)
    [] rule = "kebab-case"        -> Join(Each(w, Low), <<45>>)
    [] rule = "SHOUTY_SNAKE_CASE" -> Join(Each(w, Up), <<95>>)
    [] rule = "SHOUTY-KEBAB-CASE" -> Join(Each(w, Up), <<45>>)
    [] rule = "UpperCamelCase"    -> Join(Each(w, Cap), <<>>)
    [] rule = "lowerCamelCase"    -> Join([i \in DOMAIN w |-> IF i = 1 THEN Low(w[i]) ELSE Cap(w[i])], <<>>)
    [] rule = "Title Case"        -> Join(Each(w, Cap), <<32>>)
    [] rule = "Train-Case"        -> Join(Each(w, Cap), <<45>>)

None == <<-1>>
\* a variant: ident, rename, disc (decimal digits); None where absent
Exported(rule, v) ==
  IF v.disc # None THEN [t |-> "int", v |-> v.disc]
  ELSE IF v.rename # None THEN [t |-> "str", v |-> v.rename]
  ELSE [t |-> "str", v |-> Apply(IF rule = "" THEN "snake_case" ELSE rule, v.ident)]

\* d: the declaration; o: what the code says
EnumOk(d, o) ==
  LET n == Len(d.variants) IN
  /\ o.card = n
  /\ o.encode = [i \in 1..n |-> i - 1]
  /\ o.decode = [i \in 1..n |-> i - 1]     \* the variant number i - 1 decodes to
  /\ o.shown = [i \in 1..n |-> Exported(d.rule, d.variants[i])]
  /\ o.beyond = "panics"
  /\ IF d.singleton = None THEN o.single = <<>>
     ELSE o.single = [i \in 1..n |-> <<<<d.singleton, Exported(d.rule, d.variants[i])>>>>]

\* XmlHttpRequest, XMLHttp, aB1C, ab1C, A1b, _a__B
ASSUME /\ Words(<<88,109,108,72,116,116,112>>) = <<<<88,109,108>>, <<72,116,116,112>>>>
       /\ Words(<<88,77,76,72,116,116,112>>) = <<<<88,77,76>>, <<72,116,116,112>>>>
       /\ Words(<<97,49,67>>) = <<<<97,49>>, <<67>>>>
       /\ Words(<<65,49,98>>) = <<<<65,49,98>>>>
       /\ Words(<<95,97,95,95,66>>) = <<<<97>>, <<66>>>>
=============================================================================
