----------------------------- MODULE DeclTrace -----------------------------
(* Judges what became of declarations against Declarations: outcome is "accepted" or "rejected". *)
EXTENDS Declarations, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Holds == (Cases[i].outcome = "accepted" <=> WellFormed(Cases[i].decl)) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
