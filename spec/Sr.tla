--------------------------------- MODULE Sr ---------------------------------
(***************************************************************************)
(* The status register: one 16-bit word of which only the implemented bits *)
(* T--S--III---XNZVC exist.  Each line of TRACE is a history of one status *)
(* register: <<operation, word, fields, as word, 16 condition tests>> with *)
(* what was observed after the operation.                                  *)
(***************************************************************************)
EXTENDS Words, Json, IOUtils

VARIABLES t, tr, j, sr, phase
Point == <<t, j, phase>>
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} :
           \E n \in DOMAIN H : t = n /\ tr = H[n].s /\ j = 1 /\ sr = 0 /\ phase = "run"

Kept == 42783                                          \* A71F
Do(k, w) == CASE k \in {"from", "with"} -> w & Kept     \* with: in new registers, all the others zero
              [] k = "changed" -> -1                   \* these others are not zero
              [] k = "and" -> sr & w
              [] k = "or" -> (sr | w) & Kept
              [] k = "xor" -> (sr ^^ w) & Kept
              [] k = "ccr" -> ((sr \div 256) * 256) + (w % 32)
              [] k = "default" -> 9984                 \* 2700
Fields(w) == <<Bit(w, 15), Bit(w, 13), Bits(w, 8, 10), Bit(w, 4), Bit(w, 3), Bit(w, 2), Bit(w, 1), Bit(w, 0)>>
(* T F HI LS CC CS NE EQ VC VS PL MI GE LT GT LE *)
Tests(w) ==
  LET n == Bit(w, 3) = 1  z == Bit(w, 2) = 1  v == Bit(w, 1) = 1  c == Bit(w, 0) = 1
      s == <<TRUE, FALSE, ~c /\ ~z, c \/ z, ~c, c, ~z, z, ~v, v, ~n, n, n = v, n # v, ~z /\ n = v, z \/ n # v>>
  IN [i \in 1..16 |-> BoolInt(s[i])]
Tag(b, s) == IF b THEN {} ELSE {s}
Next ==
  /\ phase = "run" /\ j <= Len(tr)
  /\ UNCHANGED <<t, tr>>
  /\ j' = j + 1
  /\ \E w \in {Do(tr[j][1], tr[j][2])} :
        LET bad == IF w < 0 THEN {"registers"} ELSE Tag(tr[j][3] = Fields(w), "fields") \cup Tag(tr[j][4] = w, "word") \cup Tag(tr[j][5] = Tests(w), "conditions")
        IN /\ sr' = (IF w < 0 THEN 0 ELSE w)
           /\ IF bad = {} THEN phase' = "run" ELSE phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, j, bad, tr[j], sr>>))
(* A condition and its opposite *)
Opposite == \A i \in 1..8 : Tests(sr)[2 * i - 1] # Tests(sr)[2 * i]
Implemented == sr & Kept = sr
=============================================================================
