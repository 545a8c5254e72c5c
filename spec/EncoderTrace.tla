---------------------------- MODULE EncoderTrace ----------------------------
(* Judges recorded histories of encoders against Encoders.                   *)
(* A case: kind, table, calls (k: "col" or "fin", g, err, fault, got); a table *)
(* holds the documents of fresh encoders by their groups.                    *)
EXTENDS Encoders, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases
VARIABLES n, i
vars == <<n, i, pend, got, torn>>

Calls == Cases[n].calls
Whole(gs) == LET T == Input.tables[Cases[n].table] IN T[CHOOSE k \in DOMAIN T : T[k].groups = gs].doc
\* what a fresh encoder would have written, had the document ended with this call
Upper(c) == IF torn THEN <<>> ELSE Whole(IF c.k = "col" THEN Append(pend, c.g) ELSE pend)

Explained ==
  LET c == Calls[i] IN
  /\ c.err = c.fault
  /\ CASE c.fault     -> Failed(Cases[n].kind, c.k, c.got, Upper(c))
       [] c.k = "col" -> Collected(Cases[n].kind, c.g, c.got, Upper(c))
       [] c.k = "fin" -> Finished(Cases[n].kind, c.got, Upper(c))

Init == n \in DOMAIN Cases /\ i = 1 /\ EInit
Next == i <= Len(Calls) /\ Explained /\ i' = i + 1 /\ UNCHANGED n
Holds == i <= Len(Calls) => ENABLED Next \/ ~PrintT(<<"BAD", Cases[n].id>>)
=============================================================================
