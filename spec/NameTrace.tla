----------------------------- MODULE NameTrace -----------------------------
(* Judges what constructors accepted and what names wrote (and the length they declared) against Names. *)
EXTENDS Names, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Ok(c) ==
  CASE c.k = "name" -> c.ok = Accepts(c.ctor, c.s) /\ (c.ok => c.out = Spelled(c.ctor, c.s) /\ c.len = Len(c.out))
    [] c.k = "comp" -> \A o \in Range(c.outs) : o.b = Composed(c.base, c.ops) /\ o.len = Len(o.b)
Holds == Ok(Cases[i]) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
