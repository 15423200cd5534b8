------------------------------- MODULE Listing -------------------------------
(***************************************************************************)
(* The disassemble program: it lists the instructions of a file from a     *)
(* position on, until the position reaches the end asked for or the end of *)
(* the file.  Each line of TRACE is one run: the words of the file (w, the *)
(* last instruction is whole), the positions asked for (b, e), the exit    *)
(* status (rc), and the lines written where the listing was asked to go    *)
(* (got) and elsewhere (other).  The machine reads the file as the program *)
(* should: each of its steps lists one instruction.                        *)
(***************************************************************************)
EXTENDS Disasm, Json, IOUtils

VARIABLES t, run, pos, n, phase
vars == <<t, run, pos, n, phase>>
Point == <<t, n, phase>>

FileW(mem, a) == run.w[(a[1] * 32768) + (a[2] \div 2) + 1]
FileB(mem, a) == LET w == FileW(mem, <<a[1], a[2] - (a[2] % 2)>>) IN IF a[2] % 2 = 0 THEN w \div 256 ELSE w % 256

End == IF run.e < 2 * Len(run.w) THEN run.e ELSE 2 * Len(run.w)
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} : \E k \in DOMAIN H :
          t = k /\ run = H[k] /\ pos = H[k].b /\ n = 1 /\ phase = "run"

At == <<pos \div 65536, pos % 65536>>
Op == FileW(0, At)
Lines == Pfx(Hex(At) \o " ", Texts(0, Op, At))
Length == LET d == Decode(Op) IN 2 * LengthWords(d)

Bad(what) == PrintT("BAD " \o ToJson(<<t, n, what>>)) /\ phase' = "bad" /\ UNCHANGED <<pos, n>>
List ==
  /\ phase = "run" /\ pos < End
  /\ IF n > Len(run.got) THEN Bad("an instruction is missing")
     ELSE IF run.got[n] \notin Lines THEN Bad(<<"line", run.got[n]>>)
     ELSE pos' = pos + Length /\ n' = n + 1 /\ phase' = "run"
Over ==
  /\ phase = "run" /\ pos >= End
  /\ IF n <= Len(run.got) THEN Bad("too many lines")
     ELSE IF run.other # <<>> THEN Bad("written elsewhere")
     ELSE IF run.rc # 0 THEN Bad("exit status")
     ELSE phase' = "done" /\ UNCHANGED <<pos, n>>
Next == (List \/ Over) /\ UNCHANGED <<t, run>>
=============================================================================
