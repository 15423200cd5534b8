--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Closed model of the core: a program that can do anything of a menu of   *)
(* instructions at every step, with any handlers, and a world that         *)
(* requests exceptions at any time.  TLC visits every reachable state up   *)
(* to a number of steps and checks the properties of exception processing  *)
(* (C09 to C15), each stated independently of how Core computes it.        *)
(*                                                                         *)
(* Every transition visited is printed as the path that leads to it        *)
(* (PATHS = 1): /verif/harness replays the paths into the real core and    *)
(* Trace.tla compares.                                                     *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

CONSTANTS Cpus, Srs,     \* CPU models and initial status registers
          Menu,          \* the instructions, as sequences of words
          Asked,         \* the vectors that can be requested
          Burst,         \* how many may be requested between two steps
          Bad,           \* addresses (low words) refused by the memory
          Depth          \* number of transitions
VARIABLES m,       \* the machine
          mem,     \* what has been written: function of low addresses to bytes
          open,    \* requests made and not yet taken or discarded
          entered, \* the frames of the handlers running: <<SSP then, PC, SR, SSP before>>, last one first
          wrong,   \* the properties violated by the last transition
          burst,   \* requests since the last step
          n,       \* number of transitions
          hist     \* the path
state == <<m, mem, open, entered, wrong, burst>>

SSP0 == 12288  USP0 == 10240  PC0 == 4096
Handler(v) == 16384 + v * 64                       \* low word of the address in vector v
(* Memory: the code is what the step has chosen, put in front of PC *)
Text == [a |-> 0, w |-> <<>>, d |-> 0]
ByteOf(x, lo) ==
  IF lo < 1024
  THEN CASE lo % 4 = 2 -> (IF lo = 2 THEN SSP0 ELSE Handler(lo \div 4)) \div 256
         [] lo % 4 = 3 -> (IF lo = 3 THEN SSP0 ELSE Handler(lo \div 4)) % 256
         [] OTHER -> 0
  ELSE IF lo >= x.a /\ lo < x.a + 2 * Len(x.w)
  THEN LET w == x.w[(lo - x.a) \div 2 + 1] IN IF (lo - x.a) % 2 = 0 THEN w \div 256 ELSE w % 256
  ELSE IF lo \in DOMAIN x.d THEN x.d[lo] ELSE 0
ModelB(x, a) == IF a[1] # 0 THEN 0 ELSE ByteOf(x, a[2])
ModelW(x, a) == IF a[1] # 0 THEN 0 ELSE ByteOf(x, a[2]) * 256 + ByteOf(x, a[2] + 1)
RECURSIVE Wr(_, _, _)
Wr(d, wq, i) ==
  IF i > Len(wq) THEN d
  ELSE Wr([x \in DOMAIN d \cup (wq[i][1][2] .. (wq[i][1][2] + Len(wq[i][2]) - 1)) |->
             IF x >= wq[i][1][2] /\ x < wq[i][1][2] + Len(wq[i][2]) THEN wq[i][2][x - wq[i][1][2] + 1] ELSE d[x]],
          wq, i + 1)
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE v \in s : \A w \in s : v <= w IN <<x>> \o Sorted(s \ {x})
Refused == LET s == Sorted(Bad) IN [i \in DOMAIN s |-> <<<<0, s[i]>>, <<0, s[i]>> >>]
WordAt(d, lo) == ModelW([Text EXCEPT !.d = d], <<0, lo>>)

(***************************************************************************)
(* What each property says about a step of machine a0 to machine a1, with  *)
(* S the step                                                              *)
(***************************************************************************)
Say(c, b) == IF b THEN {} ELSE {c}
Interrupt(v) == v \in 25..31 \/ v \in 57..63
Rank(v) == CASE v = 3 -> 9000 [] v = 2 -> 8000 [] v = 9 -> 7000 [] Interrupt(v) -> 6000 + (v % 8) [] OTHER -> 0
MaskBefore(pv, i, sr) ==                   \* the interrupt mask when pv[i] is taken
  LET q == {k \in 1..(i - 1) : Interrupt(pv[k])}
  IN IF q = {} THEN IMask(sr) ELSE pv[CHOOSE k \in q : \A z \in q : z <= k] % 8
FrameBytes(cpu, v) == IF cpu = 0 THEN (IF v \in {2, 3} THEN 14 ELSE 6) ELSE IF v \in {2, 3} THEN 34 ELSE 8

EntryTags(a0, S, d1) ==
  LET pv == S.x.pv  k == Len(pv)  at == S.c0.R        \* registers when the handler starts
      rst == 0 \in {pv[i] : i \in 1..k}
      size(i) == FrameBytes(a0.cpu, pv[i])
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE size(i) + Sum(i - 1)
      \* nothing went wrong while entering
      clean == S.c0.pd \cup {pv[i] : i \in 1..k} = a0.pd /\ \A i \in 1..k : pv[i] \notin S.c0.pd
  IN IF k = 0 THEN {}
     ELSE IF rst
     THEN Say("C13", /\ at[SSP] = <<0, SSP0>> /\ S.ipc = <<0, Handler(1)>>
                     /\ S.c0.sr \div 32 = (8192 + 1792) \div 32
                     /\ ~S.c0.stop /\ S.c0.pd = {}
                     /\ \A r \in 1..16 : at[r] = a0.R[r])
     ELSE Say("C12", \A i \in 1..k : Interrupt(pv[i]) => pv[i] % 8 = 7 \/ pv[i] % 8 > MaskBefore(pv, i, a0.sr))
          \cup Say("C12", \A i \in 1..k : \A q \in 1..k : i < q => Rank(pv[i]) <= Rank(pv[q]))
          \cup (IF S.ex /\ clean THEN
                Say("C10", S.ipc = <<0, Handler(pv[k])>>)
                \cup Say("C10", SupSr(S.c0.sr) /\ ~TraceSr(S.c0.sr) /\ CcrOf(S.c0.sr) = CcrOf(a0.sr)
                                /\ IMask(S.c0.sr) = MaskBefore(pv, k + 1, a0.sr))
                \cup Say("C10", at[SSP] = SubI(a0.R[SSP], Sum(k)) /\ at[USP] = a0.R[USP])
                \* the outermost frame: status register and PC before
                \cup Say("C10", LET f == SubI(a0.R[SSP], size(1))[2] + (IF a0.cpu = 0 /\ pv[1] \in {2, 3} THEN 8 ELSE 0)
                                IN /\ WordAt(d1, f) = a0.sr /\ WordAt(d1, f + 2) = a0.R[PC][1] /\ WordAt(d1, f + 4) = a0.R[PC][2]
                                   /\ a0.cpu = 1 => WordAt(d1, f + 6) = (IF pv[1] \in {2, 3} THEN 61440 ELSE 0) + 4 * pv[1])
                ELSE {})
RteTags(a0, S, a1) ==
  IF ~S.ex \/ S.d.i # "Rte" \/ S.x.err # 0 \/ S.x.pv # <<>> \/ entered = <<>> THEN {}
  ELSE LET f == entered[1]
       IN IF a0.R[SSP] # f[1] THEN {}
          ELSE Say("C11", a1.R[PC] = f[2] /\ a1.sr = f[3] /\ a1.R[USP] = a0.R[USP] /\ a1.R[SSP] = f[4])
PrivTags(a0, S, a1) ==
  IF ~S.ex \/ SupSr(S.c0.sr) THEN {}
  ELSE Say("C09", a1.sr \div 32 = a0.sr \div 32 /\ a1.R[SSP] = S.c0.R[SSP] /\ S.x.rs = 0 /\ ~a1.stop)
       \cup Say("C09", S.d.i \in Privileged => S.x.err = 8 /\ a1.R[USP] = S.c0.R[USP])
TraceTags(a0, S) ==
  IF ~S.ex THEN Say("C15", S.vec # 9)
  ELSE Say("C15", (S.vec = 9) = (TraceSr(S.c0.sr) /\ S.x.err = 0 /\ S.d.i \notin Privileged))
StopTags(a0, S, a1) ==
  Say("C14", a0.stop => S.x.R = a0.R /\ S.x.sr = a0.sr /\ S.x.pd = a0.pd /\ S.x.pv = <<>> /\ ~S.ex /\ S.x.stop)
  \cup Say("C14", a1.stop => \A v \in a1.pd : v # 0 /\ v # 9 /\ (Interrupt(v) => v % 8 # 7 /\ v % 8 <= IMask(a1.sr)))
  \cup Say("C14", ~a0.stop /\ a1.stop => S.ex /\ S.d.i = "Stop")
(* requests: everything open is pending (when no entry fails) *)
LossTags(o1, a1) == Say("C12", Bad # {} \/ o1 = a1.pd)
(* an interrupt above the mask is taken by the next step *)
TakenTags(a0, S) ==
  Say("C13", 0 \in a0.pd /\ ~a0.stop => 0 \in {S.x.pv[i] : i \in DOMAIN S.x.pv}) \cup
  Say("C12", \A v \in a0.pd : ~a0.stop /\ Interrupt(v) /\ (v % 8 = 7 \/ v % 8 > IMask(a0.sr)) /\ Bad = {} =>
               \/ v \in {S.x.pv[i] : i \in DOMAIN S.x.pv} \/ 0 \in a0.pd
               \/ \E i \in DOMAIN S.x.pv : Interrupt(S.x.pv[i]) /\ S.x.pv[i] % 8 >= v % 8)

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
Init == /\ \E c \in Cpus : \E s \in Srs :
             m = Machine(c, [i \in 1..18 |-> CASE i = USP -> <<0, USP0>> [] i = SSP -> <<0, SSP0>> [] i = PC -> <<0, PC0>>
                                               [] OTHER -> <<0, 0>>], s, FALSE, {}, 65535)
        /\ mem = [x \in {} |-> 0] /\ open = {} /\ entered = <<>> /\ wrong = {} /\ burst = 0 /\ n = 0
        /\ hist = <<>>

Tell(h) == IF IOEnv.PATHS = "1"
            THEN PrintT("PATH " \o ToJson([c |-> m.cpu, b |-> Sorted(Bad), h |-> h]))
            ELSE TRUE
Path(act) == IF hist = <<>> THEN <<m.sr, act>> ELSE Append(hist, act)

Ask(v) == /\ burst < Burst /\ v \notin open
          /\ m' = Request(m, v)
          /\ open' = open \cup {v}
          /\ wrong' = Say("C14", m'.stop = (m.stop /\ ~(v \in {0, 9} \/ (Interrupt(v) /\ (v % 8 = 7 \/ v % 8 > IMask(m.sr))))))
          /\ burst' = burst + 1
          /\ hist' = Path(<<"x", v>>)
          /\ UNCHANGED <<mem, entered>>

Do(w) ==
  LET \* the address the instruction will be at, after the pending exceptions
      c0 == Ctx(m, [Text EXCEPT !.d = mem], Refused)
      p == IF m.stop THEN Zero ELSE Pc(ProcessPending(c0))
      S == Step([c0 EXCEPT !.mem.a = p[2], !.mem.w = w])
      a1 == IF S.vec # 0 THEN Request(MachineOf(S.x), S.vec) ELSE MachineOf(S.x)
      d1 == Wr(mem, S.x.wq, 1)
      pv == S.x.pv
      rst == 0 \in {pv[i] : i \in DOMAIN pv}
      o0 == IF rst THEN {} ELSE open \ {pv[i] : i \in DOMAIN pv}
      o1 == IF S.vec # 0 THEN o0 \cup {S.vec} ELSE o0
      \* frames pushed by this step, each with what it saved (see Frame)
      f1 == SubI(m.R[SSP], IF pv = <<>> THEN 0 ELSE FrameBytes(m.cpu, pv[1]))
      e0 == IF rst THEN <<>>
            ELSE IF pv = <<>> THEN entered
            ELSE IF Len(pv) > 1 \/ (m.cpu = 0 /\ pv[1] \in {2, 3}) THEN <<>>   \* (only single entries with a frame RTE can pop)
            ELSE << <<f1, m.R[PC], m.sr, m.R[SSP]>> >> \o entered
      e1 == IF S.ex /\ S.d.i = "Rte" /\ S.x.err = 0 /\ e0 # <<>> THEN Tail(e0)
            ELSE IF S.ex /\ S.x.R[SSP] # S.c0.R[SSP] THEN <<>>         \* the program moves its stack
            ELSE e0
  IN /\ S.x.crash = ""
     /\ \A i \in DOMAIN S.x.wq : S.x.wq[i][1][1] = 0 /\ S.x.wq[i][1][2] \in 1024..65000   \* (the vectors stay)
     /\ m' = a1 /\ mem' = d1 /\ open' = o1 /\ entered' = e1 /\ burst' = 0
     /\ wrong' = EntryTags(m, S, d1) \cup RteTags(m, S, a1) \cup PrivTags(m, S, a1) \cup TraceTags(m, S)
                 \cup StopTags(m, S, a1) \cup LossTags(o1, a1) \cup TakenTags(m, S)
     /\ hist' = Path(<<"s", w, p>>)

Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E v \in Asked : Ask(v)
           \/ \E w \in (IF m.stop THEN {<<20081>>} ELSE Menu) : Do(w)
        /\ Tell(hist')

Right == wrong = {}
=============================================================================
