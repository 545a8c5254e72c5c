--------------------------- MODULE LabelSetTrace ---------------------------
(* Judges what label sets and their families did against LabelSets. *)
EXTENDS LabelSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "all"
Holds == (IF Part = "count" THEN CountOk(Cases[i])
          ELSE IF Part = "families" THEN FamiliesOk(Cases[i]) ELSE SetOk(Cases[i])) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
