---------------------------- MODULE DeriveTrace ----------------------------
(* Judges derived labels against Derive. *)
EXTENDS Derive, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Holds == EnumOk(Cases[i].decl, Cases[i].obs) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
