------------------------------- MODULE Board -------------------------------
(***************************************************************************)
(* The scc68070 program: an SCC68070 with 5 MB of RAM, in which the ROM    *)
(* file is put at $400000, and a serial port of which the status is at     *)
(* $80002013 and the data at $80002019.  The first four words that the CPU *)
(* reads, the reset vector, are those of the ROM.  Everything written to   *)
(* the data register is printed.  The program makes a thousand million     *)
(* steps (most of them of a stopped CPU) and prints the time.  Each line   *)
(* of TRACE is one run: the ROM (vec, its first four words; w, the program,*)
(* at $400000 + at; h, the handlers and data, at $403000), the characters  *)
(* printed (got), whether the time taken was printed after them, and the   *)
(* exit status.                                                            *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

VARIABLES t, run, m,
          d,          \* the bytes written
          n,          \* characters printed
          steps, phase
vars == <<t, run, m, d, n, steps, phase>>
Point == <<t, steps, phase>>

Half(w, o) == LET x == w[o \div 2 + 1] IN IF o % 2 = 0 THEN x \div 256 ELSE x % 256
RomB(o) == IF o < 8 THEN Half(run.vec, o)
           ELSE IF o >= run.at /\ o < run.at + 2 * Len(run.w) THEN Half(run.w, o - run.at)
           ELSE IF o >= 12288 /\ o < 12288 + 2 * Len(run.h) THEN Half(run.h, o - 12288)
           ELSE 0
DevB(lo) == IF lo = 8211 THEN 14 ELSE 0
RamB(mem, a) == IF a \in DOMAIN mem.d THEN mem.d[a] ELSE IF a[1] = 64 THEN RomB(a[2]) ELSE 0
BoardB(mem, a) == IF a[1] = 32768 THEN DevB(a[2])
                  ELSE RamB(mem, IF mem.swap THEN <<a[1] + 64, a[2]>> ELSE a)
BoardW(mem, a) == BoardB(mem, a) * 256 + BoardB(mem, <<a[1], a[2] + 1>>)
(* Where there is nothing *)
Hole == << << <<80, 0>>, <<32768, 8208>> >>, << <<32768, 8220>>, <<65535, 65535>> >> >>

Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} : \E k \in DOMAIN H :
          /\ t = k /\ run = H[k] /\ d = [x \in {} |-> 0] /\ n = 0 /\ steps = 0 /\ phase = "run"
          /\ m = Machine(1, [i \in 1..18 |-> Zero], 9984, FALSE, {0}, 65535)

(* The step: the reset vector comes from the ROM, the instruction from where the CPU asks *)
TheStep == IF m.pd = {0}
           THEN Instr([ProcessPending(Ctx(m, [swap |-> TRUE, d |-> d], Hole)) EXCEPT !.mem = [swap |-> FALSE, d |-> d]])
           ELSE Step(Ctx(m, [swap |-> FALSE, d |-> d], Hole))
After(S) == IF S.vec = 0 THEN MachineOf(S.x) ELSE Request(MachineOf(S.x), S.vec)

RECURSIVE Bytes(_, _)
Bytes(wq, i) == IF i > Len(wq) THEN <<>>
               ELSE [k \in DOMAIN wq[i][2] |-> << <<wq[i][1][1], wq[i][1][2] + k - 1>>, wq[i][2][k] >>] \o Bytes(wq, i + 1)
RECURSIVE Kept(_, _, _)
Kept(f, q, i) == IF i > Len(q) THEN f
                  ELSE Kept(IF q[i][1][1] = 32768 THEN f
                             ELSE [x \in DOMAIN f \cup {q[i][1]} |-> IF x = q[i][1] THEN q[i][2] ELSE f[x]], q, i + 1)
Data(q) == LET s == SelectSeq(q, LAMBDA b : b[1] = <<32768, 8217>>) IN [i \in DOMAIN s |-> s[i][2]]

Limit == 1000000000    \* the steps that the program makes
(* DBF Dn, to itself, with k in the counter: k steps that do nothing but count.  (That one of them does is checked.) *)
Loop == LET a == Pc(m)
            w == BoardW([swap |-> FALSE, d |-> d], a)
        IN IF m.pd = {} /\ ~m.stop /\ ~Odd32(a) /\ a[1] = 64 /\ w \div 8 = 2617 /\ ~TraceSr(m.sr)
              /\ BoardW([swap |-> FALSE, d |-> d], AddI(a, 2)) = 65534
           THEN (w % 8) + 1 ELSE 0
Count == LET k == m.R[Loop][2] IN IF k < Limit - steps THEN k ELSE Limit - steps
Leaps == /\ phase = "run" /\ steps < Limit /\ Loop # 0 /\ m.R[Loop][2] > 1 /\ Count > 0
Leap == /\ Leaps
        /\ Assert(LET S == TheStep IN S.vec = 0 /\ S.x.wq = <<>> /\ MachineOf(S.x) = [m EXCEPT !.R[Loop][2] = @ - 1, !.opc = S.x.opc], "a loop")
        /\ steps' = steps + Count
        /\ m' = [m EXCEPT !.R[Loop][2] = @ - Count, !.opc = BoardW([swap |-> FALSE, d |-> d], Pc(m))]
        /\ UNCHANGED <<d, n, phase>>
Bad(what) == PrintT("BAD " \o ToJson(<<t, what, n, steps>>)) /\ phase' = "bad" /\ UNCHANGED <<m, d, n, steps>>
Go == /\ phase = "run" /\ ~m.stop /\ steps < Limit /\ ~Leaps
      /\ LET S == TheStep
             q == Bytes(S.x.wq, 1)
             c == Data(q)
         IN IF S.x.crash # "" \/ S.x.miss THEN Bad("the ROM is wrong")
            ELSE IF \E i \in DOMAIN c : n + i > Len(run.got) THEN Bad(<<"missing", c>>)
            ELSE IF \E i \in DOMAIN c : run.got[n + i] # c[i] THEN Bad(<<"printed", run.got[n + 1], "for", c>>)
            ELSE /\ m' = After(S) /\ d' = Kept(d, q, 1) /\ n' = n + Len(c) /\ steps' = steps + 1 /\ phase' = "run"
Over == /\ phase = "run" /\ (m.stop \/ steps = Limit)
        /\ IF n < Len(run.got) THEN Bad("printed more")
           ELSE IF run.rc # 0 THEN Bad("exit status")
           ELSE IF run.time # 1 THEN Bad("no time at the end")
           ELSE phase' = "done" /\ UNCHANGED <<m, d, n, steps>>
Next == (Go \/ Leap \/ Over) /\ UNCHANGED <<t, run>>
=============================================================================
