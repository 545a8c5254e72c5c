------------------------------- MODULE ScenGen -------------------------------
(* Writes the program families of one property, for the driver. *)
EXTENDS Programs, Json, IOUtils, TLC, SequencesExt

Out == [i \in 1..Len(Plan(IOEnv.PROP)) |->
  LET f == Plan(IOEnv.PROP)[i] IN
  [tag |-> f.tag, kinds |-> SetToSeq(f.kinds), reps |-> SetToSeq(f.reps), hashes |-> SetToSeq(f.hashes),
   setups |-> SetToSeq(f.setups), fin |-> f.fin, wide |-> SetToSeq(f.units),
   threads |-> SetToSeq(ThreadPrograms(f, f.len))]]

ASSUME JsonSerialize(IOEnv.OUT, Out)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
