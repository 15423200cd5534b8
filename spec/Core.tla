-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The CPU core: exception requests, exception processing, one interpreter *)
(* step, and the run loops.  A machine state is a record                   *)
(*    [cpu, R, sr, stop, pd, opc]                                          *)
(* (see Exec); Ctx makes an execution context of it.                       *)
(***************************************************************************)
EXTENDS Exec

Machine(cpu, r, sr, stop, pd, opc) ==
  [cpu |-> cpu, R |-> r, sr |-> sr, stop |-> stop, pd |-> pd, opc |-> opc]

NoOp == [m |-> -1, r |-> 0, e |-> Zero, p |-> Zero]
Ctx(m, mem, rf) ==
  [cpu |-> m.cpu, R |-> m.R, sr |-> m.sr, stop |-> m.stop, pd |-> m.pd, opc |-> m.opc,
   err |-> 0, fk |-> "", v |-> Zero, a |-> Zero, op |-> NoOp, rq |-> <<>>, wq |-> <<>>,
   u |-> 0, ub |-> FALSE, ud |-> 0, miss |-> FALSE, rs |-> 0, pv |-> <<>>, crash |-> "",
   mem |-> mem, rf |-> rf, ff |-> FALSE, lw |-> FALSE]
MachineOf(c) == Machine(c.cpu, c.R, c.sr, c.stop, c.pd, c.opc)

(***************************************************************************)
(* Requesting an exception                                                 *)
(***************************************************************************)
Request(m, v) == [m EXCEPT !.pd = @ \cup {v}, !.stop = @ /\ ~Resumes(v, m.sr)]

(***************************************************************************)
(* Exception processing.  Exceptions pending together are processed from   *)
(* the lowest priority to the highest, so that the handler of the highest  *)
(* one runs first; reset discards everything else.                         *)
(***************************************************************************)
Prio(v) == CASE v = 3 -> 0 [] v = 2 -> 1 [] v = 9 -> 2
             [] (v >= 24 /\ v <= 31) \/ v >= 57 -> 3
             [] v = 4 -> 4 [] v = 8 -> 5 [] OTHER -> 6
Key(v) == (6 - Prio(v)) * 2048 + Level(v) * 256 + v       \* processed in increasing order
FirstOf(s) == CHOOSE v \in s : \A w \in s : Key(v) <= Key(w)

(* Supervisor mode, trace off, interrupt mask raised to the level *)
EnterSr(sr, v) == 8192 + (IF IsIntr(v) THEN Level(v) ELSE IMask(sr)) * 256 + CcrOf(sr)
(* c.lw: with the long words of the frame written as two words, the low one *)
(* first, which differs in what a refused write leaves behind only.         *)
Frame(c, v, sr0, pc0) ==
  LET W0(x) == Push(x, 2, Zero)
      WV(x, w) == Push(x, 2, <<0, w>>)
      L(x, y) == IF c.lw THEN WV(WV(x, y[2]), y[1]) ELSE Push(x, 4, y)
      L0(x) == L(x, Zero)
      PcSr68000(x) == WV(L(x, pc0), sr0)
  IN IF c.cpu % 2 = 0                                  \* odd models have the SCC68070 frames
     THEN LET x == PcSr68000(c)
          IN IF v \in {2, 3} THEN W0(L0(WV(x, c.opc))) ELSE x
     ELSE IF v \in {2, 3}
     THEN LET x1 == WV(WV(W0(c), c.opc), c.opc)
              x2 == L0(L0(L0(x1)))
              x3 == W0(W0(W0(W0(x2))))
          IN PcSr68000(WV(x3, 61440 + v * 4))
     ELSE PcSr68000(WV(c, v * 4))
ProcessEx(c, v) ==
  LET c1 == [c EXCEPT !.sr = EnterSr(c.sr, v)]
      c2 == Frame(c1, v, c.sr, Pc(c))
      c3 == RdL(c2, <<0, v * 4>>, "read")
  IN [Set(c3, PC, c3.v) EXCEPT !.ff = @ \/ c2.err # 0]
ResetCpu(c) ==
  LET c1 == RdL(c, <<0, 0>>, "read")
      c2 == RdL(Set(c1, SSP, c1.v), <<0, 4>>, "read")
      c3 == Set(c2, PC, c2.v)
  IN [c3 EXCEPT !.sr = 8192 + 1792 + CcrOf(c.sr), !.stop = FALSE, !.pd = {},
                !.crash = IF c3.err # 0 THEN "reset vector" ELSE @, !.err = 0,
                !.pv = Append(@, 0)]
RECURSIVE ProcessAll(_, _)
ProcessAll(c, todo) ==
  IF todo = {} \/ c.crash # "" THEN c
  ELSE LET v == FirstOf(todo)
           rest == todo \ {v}
       IN IF v = 0 THEN ResetCpu(c)
          ELSE IF Inhibited(v, c.sr)                    \* by another one just processed
          THEN ProcessAll([c EXCEPT !.pd = @ \cup {v}], rest)
          ELSE LET c1 == ProcessEx(c, v)
                   e == c1.err
                   c2 == [c1 EXCEPT !.err = 0, !.fk = "",
                            !.crash = IF e = 2 /\ v = 2 THEN "double access error" ELSE @,
                            !.pd = IF e = 0 THEN @
                                   ELSE @ \cup {IF e = 2 /\ IsIntr(v) THEN 24 ELSE e},
                            !.pv = IF e = 0 THEN Append(@, v) ELSE @]
               IN ProcessAll(c2, rest)
ProcessPending(c) ==
  LET todo == {v \in c.pd : ~Inhibited(v, c.sr)}
  IN IF todo = {} THEN c ELSE ProcessAll([c EXCEPT !.pd = @ \ todo], todo)

(***************************************************************************)
(* One interpreter step.  The result adds to the context:                  *)
(*   vec   the exception raised (0 none), ex  whether an instruction was   *)
(*   fetched, ipc its address, d its decoding, c0 the context before it    *)
(***************************************************************************)
Restarts == {4, 8, 10, 11}
Instr(c) ==
  LET c1 == FetchW(c)
      c2 == [c1 EXCEPT !.opc = c1.v[2]]
      d == Decode(c2.opc)
      c3 == Exec(c2, d)
      vec == IF c3.err # 0 THEN c3.err
             ELSE IF TraceSr(c.sr) /\ d.i \notin Privileged THEN 9 ELSE 0
      c4 == IF vec \in Restarts THEN [c3 EXCEPT !.R[PC] = Pc(c)] ELSE c3
  IN IF c.crash # "" THEN [x |-> c, vec |-> 0, ex |-> FALSE, ipc |-> Pc(c), d |-> Unk, c0 |-> c]
     ELSE IF c1.err # 0 \/ c1.miss THEN [x |-> c1, vec |-> c1.err, ex |-> FALSE, ipc |-> Pc(c), d |-> Unk, c0 |-> c]
     ELSE [x |-> IF c4.fk = "code" THEN [c4 EXCEPT !.crash = "extension word"] ELSE c4,
           vec |-> vec, ex |-> TRUE, ipc |-> Pc(c), d |-> d, c0 |-> c2]
Step(c) ==
  IF c.stop THEN [x |-> c, vec |-> 0, ex |-> FALSE, ipc |-> Zero, d |-> Unk, c0 |-> c]
  ELSE Instr(ProcessPending(c))
=============================================================================
