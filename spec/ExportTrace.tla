---------------------------- MODULE ExportTrace ----------------------------
(* Judges documents recorded from the real encoders against Exposition. *)
EXTENDS Exposition, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

Ok(c) ==
  CASE c.k = "text"  -> TextOk(c.trees, c.fams, c.bytes, c.tab, "ws" \in DOMAIN c)
    [] c.k = "proto" -> ProtoOk(c.trees, c.fams, c.bytes, c.tab, "ws" \in DOMAIN c)

VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Holds == Ok(Cases[i]) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
