---------------------------- MODULE BucketTrace ----------------------------
(* Judges what the bucket builders returned (out: limbs, or "rejected") against Buckets. *)
EXTENDS Buckets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == UNCHANGED i
Ok(c) == IF c.rejected THEN ~Accepts(c)
         ELSE IF "near" \in DOMAIN c THEN Len(c.near) = Len(c.out) /\ \A k \in DOMAIN c.near : Close(c.near[k], c.out[k], IF k = 1 THEN 0 ELSE 4 * c.n)
         ELSE LET b == Bounds(c) IN Accepts(c) /\ Len(b) = Len(c.out) /\ \A k \in DOMAIN b : FSame(b[k], c.out[k])
Holds == Ok(Cases[i]) \/ ~PrintT(<<"BAD", Cases[i].id>>)
=============================================================================
