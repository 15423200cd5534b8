------------------------------ MODULE GenDecode ------------------------------
(***************************************************************************)
(* Writes the decode table of the specification, for the trace generator.  *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils
VARIABLE done
Row(op) == LET d == Decode(op) IN <<op, d.i, d.sz, d.m, d.r, d.x, d.y, d.k, LengthWords(d)>>
Init == done = ndJsonSerialize(IOEnv.OUT, [n \in 1..65536 |-> Row(n - 1)])
Next == UNCHANGED done
==============================================================================
