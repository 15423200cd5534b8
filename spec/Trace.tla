-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance of recorded histories of the real core to the machine of    *)
(* Core.  The file named by the environment variable TRACE has one history *)
(* per line (written by /verif/harness), a record                          *)
(*   i  name    c  CPU model   n  whether the core was created with reset  *)
(*   fr  whether it is as it was created                                   *)
(*   m  the 18 registers, sr, st: status register and stopped state        *)
(*   rf refused address ranges      s  the steps, each one of              *)
(*     k = "x": exception vector v requested                               *)
(*     k = "w" "l" "p": get_next_word, get_next_long, peek_next_word, with *)
(*         x the value, v the error (0 none), and the fields below         *)
(*     k = "h": a register helper q with register g, value x, result y     *)
(*     k = "y": the core is replaced by its clone                          *)
(*     k = "e" "i" "D" "d": one call of interpreter_exception,             *)
(*         interpreter, and their disassembling variants, with v the       *)
(*         vector returned, c the cycles, r the registers that changed,    *)
(*         sr, st the state after it, rd / wr the runs of bytes read (first*)
(*         value) and written (last value), na the number of accesses      *)
(*         refused, od the number of odd word accesses, rs the number of   *)
(*         RESET signals, rr whether a byte was read twice with different  *)
(*         values, p whether the call panicked, a, t the address and text  *)
(*         returned, alt the same record for a twin machine                *)
(* One state of this specification is one point of one history; each step  *)
(* of the specification machine is taken with the memory contents that the *)
(* real core read, and compared with the recorded outcome.                 *)
(***************************************************************************)
EXTENDS Timing, Disasm, Json, IOUtils

Pid == IOEnv.PID

VARIABLES tr,      \* the history
          t,       \* its number in the file
          j,       \* the next step
          m        \* the machine before it
vars == <<tr, t, j, m>>
Point == <<t, j>>  \* tr and m are functions of it

(* Memory as recorded *)
RECURSIVE RunAt(_, _, _)
RunAt(mem, a, i) ==
  IF i > Len(mem) THEN 0
  ELSE IF mem[i][1][1] = a[1] /\ mem[i][1][2] <= a[2] /\ a[2] < mem[i][1][2] + Len(mem[i][2]) THEN i
  ELSE RunAt(mem, a, i + 1)
RecB(mem, a) == LET i == RunAt(mem, a, 1)
                IN IF i = 0 THEN -1 ELSE mem[i][2][a[2] - mem[i][1][2] + 1]
RecW(mem, a) == LET i == RunAt(mem, a, 1)
                    o == a[2] - mem[i][1][2] + 1
                IN IF i = 0 THEN -1
                   ELSE IF o = Len(mem[i][2]) THEN -1
                   ELSE mem[i][2][o] * 256 + mem[i][2][o + 1]

RECURSIVE ApplyDelta(_, _, _)
ApplyDelta(R, d, i) == IF i > Len(d) THEN R
                       ELSE ApplyDelta([R EXCEPT ![d[i][1]] = d[i][2]], d, i + 1)

(* The value last written at x by write sequence wq, or -1 *)
RECURSIVE LastWrite(_, _, _)
LastWrite(wq, x, i) ==
  IF i = 0 THEN -1
  ELSE LET o == wq[i][1]  n == Len(wq[i][2])  k == x[2] - o[2]
       IN IF x[1] = o[1] /\ k >= 0 /\ k < n THEN wq[i][2][k + 1]
          ELSE LastWrite(wq, x, i - 1)
RunAddr(run, n) == <<run[1][1], run[1][2] + n - 1>>
WritesExplained(wr, wq) ==
  \A i \in DOMAIN wr : \A n \in DOMAIN wr[i][2] :
     LastWrite(wq, RunAddr(wr[i], n), Len(wq)) = wr[i][2][n]
WritesPlaced(wr, wq) ==                      \* only addresses of wq
  \A i \in DOMAIN wr : \A n \in DOMAIN wr[i][2] : LastWrite(wq, RunAddr(wr[i], n), Len(wq)) >= 0
WritesDone(wr, wq) ==
  \A i \in DOMAIN wq : \A n \in DOMAIN wq[i][2] :
     RunAt(wr, <<wq[i][1][1], wq[i][1][2] + n - 1>>, 1) # 0
RECURSIVE InReads(_, _, _)
InReads(rq, x, i) ==
  IF i = 0 THEN FALSE
  ELSE LET o == rq[i][1]  k == x[2] - o[2]
       IN (x[1] = o[1] /\ k >= 0 /\ k < rq[i][2]) \/ InReads(rq, x, i - 1)
ReadsExplained(rd, rq, wq) ==
  \A i \in DOMAIN rd : \A n \in DOMAIN rd[i][2] :
     \/ InReads(rq, RunAddr(rd[i], n), Len(rq))
     \/ LastWrite(wq, RunAddr(rd[i], n), Len(wq)) >= 0

(***************************************************************************)
(* Comparison of a step of the specification S (from machine m) with the   *)
(* observation o: a set of tags naming what differs.                       *)
(***************************************************************************)
Tag(b, s) == IF b THEN {} ELSE {s}
LowByte(r, b) == <<r[1], (r[2] \div 256) * 256 + b>>
(* an address register index that no instruction executed in that mode can *)
(* reach other than by MOVE USP or an exception: the inactive stack pointer*)
Inactive(sr) == IF SupSr(sr) THEN USP ELSE SSP

Faulted(S) == S.ex /\ S.x.err \in {2, 3}
Restarted(S) == S.x.err \in Restarts

(* How far the instruction had brought an address register when its access was refused *)
Midway(S, i, v) ==
  LET d == S.d  v0 == S.c0.R[i]  v1 == S.x.R[i]
      sp == IF SupSr(S.c0.sr) THEN SSP ELSE USP
  IN \/ i >= 9 /\ i # PC /\ \E n \in 2 .. 16 : \E q \in 1 .. n - 1 :
              \/ v1 = AddI(v0, n) /\ v = AddI(v0, q)
              \/ v1 = SubI(v0, n) /\ v = SubI(v0, q)
     \/ d.i = "Unlk" /\ i = sp /\ v = SubI(v1, 4)
     \/ d.i = "Movem" /\ d.m \in {3, 4} /\ i = (IF d.r < 7 THEN 9 + d.r ELSE sp)
        /\ \E k \in 1 .. 16 : v = (IF d.m = 3 THEN AddI(v0, k * d.sz) ELSE SubI(v0, k * d.sz))
RegTags(S, OR) ==
  LET x == S.x  c0 == S.c0
      okr(i) == \/ OR[i] = x.R[i]
                \/ ~S.ex /\ x.err = 2 /\ i = PC /\ OR[PC] = S.ipc        \* a refused opcode may count as read
                \/ Faulted(S) /\ (OR[i] = c0.R[i] \/ Midway(S, i, OR[i]))
                \/ Faulted(S) /\ S.d.i = "Movep" /\ S.d.k = 0 /\ i = S.d.x + 1   \* a half-loaded register
                   /\ (S.d.sz = 4 \/ OR[i][1] = c0.R[i][1])
                \/ x.ub /\ x.ud = i /\ x.err = 0 /\ LowByte(OR[i], 0) = LowByte(x.R[i], 0)
      bad == {i \in 1..18 : ~okr(i)}
      kept(i) == x.R[i] = c0.R[i]
      tag(i) == IF i = PC THEN "pc"
                ELSE IF i <= 8 THEN (IF kept(i) THEN "dk" ELSE "d")
                ELSE IF i \in {USP, SSP} /\ i = Inactive(c0.sr) THEN "isp"
                ELSE IF kept(i) THEN "ak" ELSE "a"
  IN IF OR = x.R THEN {} ELSE {tag(i) : i \in bad}
SrTags(S, osr) ==
  LET x == S.x
      diff == (osr % 32) ^^ (x.sr % 32)
      mask == IF Faulted(S) /\ x.fk = "write" THEN 0
              ELSE IF Faulted(S) /\ osr % 32 = S.c0.sr % 32 THEN 0
              ELSE 31 - x.u
  IN Tag(diff = 0 \/ diff & mask = 0, IF x.sr % 32 = S.c0.sr % 32 THEN "fk" ELSE "f")
     \cup Tag(osr \div 32 = x.sr \div 32, "sys")
WrTags(S, wr) ==
  LET x == S.x
  IN IF Faulted(S) THEN Tag(WritesExplained(wr, x.wq), "wx")
     ELSE IF x.ub /\ x.ud = 0
     THEN Tag(WritesPlaced(wr, x.wq), "wx") \cup Tag(WritesDone(wr, x.wq), "wr")
     ELSE IF wr = <<>> /\ x.wq = <<>> THEN {}
     ELSE Tag(WritesPlaced(wr, x.wq), "wx")
          \cup Tag(WritesExplained(wr, x.wq) /\ WritesDone(wr, x.wq), "wr")
StepTags(S, o, OR) ==
  LET x == S.x
      quiet == o.k \in {"i", "d"}              \* the vector is queued, not returned
  IN IF o.p = 1 THEN {"pan"}
     ELSE Tag(IF quiet THEN o.v = 0 ELSE o.v = S.vec, "vec")
          \cup Tag(o.od = 0, "odd")
          \cup Tag(o.rr = 0 \/ x.pv # <<>>, "rr")
          \cup (IF x.miss /\ ~Restarted(S) THEN {"rd"}
                ELSE IF o.rr = 1 THEN {}
                ELSE RegTags(S, OR) \cup SrTags(S, o.sr) \cup WrTags(S, o.wr)
                     \cup Tag(ReadsExplained(o.rd, x.rq, x.wq), "rx")
                     \cup Tag((o.st = 1) = (IF quiet /\ S.vec # 0 THEN x.stop /\ ~Resumes(S.vec, x.sr) ELSE x.stop), "stop")
                     \cup Tag(o.rs = x.rs, "rst")
                     \cup Tag(CyclesOk(S, o.c), "cyc"))
TextTags(S, o) ==
  IF o.k \notin {"D", "d"} \/ o.p = 1 \/ S.x.miss THEN {}
  ELSE IF ~S.ex THEN Tag(o.t = "", "txn")
  ELSE Tag(o.a = S.ipc, "adr") \cup Tag(o.t # "", "txn")
       \cup (IF Pid \in {"C20", "ALL"} /\ ~S.x.miss THEN Tag(o.t \in Texts(o.rd, S.x.opc, S.ipc), "txt") ELSE {})
PubTags(S, o) ==                              \* the public decoder and disassembler
  IF "pub" \notin DOMAIN o \/ ~S.ex \/ S.x.miss \/ o.p = 1 THEN {}
  ELSE LET q == o.pub
       IN IF "v" \in DOMAIN q THEN {"isa"}
          ELSE Tag(q.n = S.d.i /\ q.o = S.x.opc /\ q.at = S.ipc /\ q.to = AddI(S.ipc, 2 * LengthWords(S.d)), "isa")
               \cup Tag(q.t \in Texts(o.rd, S.x.opc, S.ipc) /\ q.same = 1, "txt")
AltTags(o) ==
  IF "alt" \notin DOMAIN o \/ o.p = 1 THEN {}
  ELSE LET q == o.alt
       IN Tag(q.v = o.v, "altv") \cup Tag(q.c = o.c, "altc") \cup Tag(q.r = o.r, "altr")
          \cup Tag(q.sr = o.sr, "alts") \cup Tag(q.st = o.st, "altst") \cup Tag(q.wr = o.wr, "altw")
          \cup Tag(q.rs = o.rs, "altrs") \cup Tag(q.p = o.p, "altp")

(***************************************************************************)
(* What a host does to a core between steps: the public memory and         *)
(* register helpers.  As with the CPU, A7 is the stack pointer of the mode.*)
(***************************************************************************)
HostTags(o, OR) ==
  LET pc == Pc(m)
      wide == o.k = "l"
      n == IF wide THEN 4 ELSE 2
      c == Ctx(m, o.rd, tr.rf)
      refused == RefW(c, pc) \/ (wide /\ RefW(c, AddI(pc, 2)))
      to(q) == [m.R EXCEPT ![PC] = q]
      next == IF o.k = "p" THEN m.R ELSE to(AddI(pc, n))
      word == RecW(o.rd, pc)
      fetch == IF Odd32(pc) THEN Tag(o.v = 3, "vec") \cup Tag(OR = m.R, "pc") \cup Tag(o.rd = <<>>, "rx")
               ELSE IF refused THEN Tag(o.v = 2, "vec") \cup Tag(OR \in {m.R, to(AddI(pc, 2)), next}, "pc")
               ELSE Tag(o.v = 0, "vec") \cup Tag(OR = next, "pc")
                    \cup Tag(o.x = (IF wide THEN <<word, RecW(o.rd, AddI(pc, 2))>> ELSE <<0, word>>), "rd")
                    \cup Tag(ReadsExplained(o.rd, IF wide THEN <<<<pc, 2>>, <<AddI(pc, 2), 2>>>> ELSE <<<<pc, 2>>>>, <<>>), "rx")
      areg == IF o.g < 7 THEN 9 + o.g ELSE IF SupSr(m.sr) THEN SSP ELSE USP
      set(i, v) == [m.R EXCEPT ![i] = v]
      after == CASE o.q = "db" -> set(o.g + 1, Merge(1, m.R[o.g + 1], o.x))
                 [] o.q = "dw" -> set(o.g + 1, Merge(2, m.R[o.g + 1], o.x))
                 [] o.q \in {"wa", "ws"} -> set(areg, o.x)
                 [] OTHER -> m.R
      helper == Tag(OR = after, "helper") \cup Tag(o.q \notin {"ra", "sp"} \/ o.y = m.R[areg], "helper")
  IN Tag(o.p = 0, "pan") \cup Tag(o.sr = m.sr, "sys") \cup Tag((o.st = 1) = m.stop, "stop") \cup Tag(o.wr = <<>>, "wx")
     \cup Tag(o.od = 0, "odd")
     \cup (IF o.k = "h" THEN helper ELSE IF o.k = "y" THEN Tag(OR = m.R /\ o.rd = <<>>, "clone") ELSE fetch)
(* A core as it is made *)
Fresh(h) == h.fr = 0 \/ (h.sr = 9984 /\ h.st = 0 /\ \A i \in DOMAIN h.m : h.m[i] = Zero)

(***************************************************************************)
(* Which differences a property is about                                   *)
(***************************************************************************)
Arith == {"Add", "Adda", "Addi", "Addq", "Addx", "Sub", "Suba", "Subi", "Subq", "Subx", "Cmp", "Cmpa",
          "Cmpi", "Cmpm", "Neg", "Negx", "Muls", "Mulu", "Divs", "Divu", "Abcd", "Sbcd", "Nbcd", "Ext", "Chk"}
Logics == {"And", "Andi", "Or", "Ori", "Eor", "Eori", "Not", "Andiccr", "Oriccr", "Eoriccr", "Andisr", "Orisr",
          "Eorisr", "Asr", "Asm", "Lsr", "Lsm", "Roxr", "Roxm", "Ror", "Rom", "Btst", "Bchg", "Bclr", "Bset",
          "Tas", "Tst", "Clr", "Swap", "Exg", "Scc", "Move", "Movea", "Moveq", "Moveccr", "Movesr", "Movefsr"}
Flow == {"Bcc", "Bra", "Bsr", "Dbcc", "Jmp", "Jsr", "Rts", "Rtr", "Link", "Unlk", "Pea"}
Calm == {"Nop", "Moveq", "Rte", "Stop", "Movesr", "Andisr", "Orisr", "Eorisr", "Moveusp", "Reset", "Trap",
         "Illegal", "Unknown", "Trapv", "Bra"}
Raisers == {"Trap", "Trapv", "Chk", "Divs", "Divu", "Illegal", "Unknown"}
Mine(p, S, o, tags) ==
  LET d == S.d  x == S.x
      alone == x.pv = <<>>
      entered == x.pv # <<>>
      done == S.ex /\ x.err = 0
      has(q) == tags \cap q # {}
      regs == {"d", "dk", "a", "ak", "isp"}
      data == regs \cup {"pan", "f", "fk", "sys", "wr", "wx", "rd", "rx"}
      all == data \cup {"vec", "pc", "stop", "rst", "odd", "rr"}
  IN CASE p = "C01" -> S.ex /\ has({"vec", "pc", "dk", "ak", "wx", "rd", "adr", "isp", "pan", "isa"})
       [] p = "C02" -> S.ex /\ d.i \in Arith /\ x.err \notin {2, 3} /\ has(regs \cup {"f", "fk", "wr", "rd", "pan"})
       [] p = "C03" -> S.ex /\ d.i \in Logics /\ x.err \notin {2, 3} /\ has(regs \cup {"f", "fk", "sys", "wr", "rd", "pan"})
       [] p = "C04" -> S.ex /\ (has({"a", "ak", "wx", "rd", "rx", "isp", "pan"}) \/ (d.i \in {"Lea", "Pea", "Jmp", "Jsr"} /\ has({"pc", "wr"})))
       [] p = "C05" -> S.ex /\ has({"dk", "ak", "isp", "fk", "sys", "wr", "wx", "rd", "rx", "rr", "rst", "d"})
       [] p = "C06" -> \/ has({"odd"}) 
                       \/ (x.err \in {2, 3} \/ o.v \in {2, 3}) /\ has(all)
       [] p = "C07" -> S.ex /\ d.i \in Flow /\ x.err \notin {2, 3} /\ has(all)
       [] p = "C08" -> S.ex /\ d.i \in {"Movem", "Movep"} /\ x.err \notin {2, 3} /\ has(all)
       [] p = "C09" -> S.ex /\ ( \/ ~SupSr(S.c0.sr) /\ (has({"sys", "isp"}) \/ (d.i \in Privileged /\ has(all)))
                                 \/ d.i \in {"Moveusp"} /\ has(all)
                                 \/ has({"isp"}))
       [] p = "C10" -> entered /\ (~S.ex \/ d.i \in Calm) /\ has(all)
       [] p = "C11" -> S.ex /\ d.i = "Rte" /\ has(all)
       [] p = "C12" -> (~S.ex \/ d.i \in Calm) /\ has(all)
       [] p = "C13" -> 0 \in {x.pv[n] : n \in DOMAIN x.pv} /\ (~S.ex \/ d.i \in Calm) /\ has(all)
       [] p = "C14" -> (~S.ex \/ d.i \in Calm) /\ has(all \cup {"cyc"})
       [] p = "C15" -> \/ (TraceSr(S.c0.sr) \/ o.v = 9) /\ has({"vec"})
                       \/ 9 \in {x.pv[n] : n \in DOMAIN x.pv} /\ (~S.ex \/ d.i \in Calm) /\ has(all)
       [] p = "C16" -> has({"loop"})
       [] p = "C17" -> has({"cyc"})
       [] p = "C18" -> has({"altv", "altc", "altr", "alts", "altst", "altw", "altrs", "altp", "adr", "txn"})
       [] p = "C20" -> has({"txt"})
       [] p = "C23" -> has({"ffi"})
       [] p = "C24" -> has({"pan"})
       [] p = "C25" -> \/ S.ex /\ (d.i \in Raisers \/ x.err \notin {0, 2, 3, 14}) /\ has(all)
                       \/ S.ex /\ has({"vec"})
       [] p = "C26" -> x.cpu > 1 /\ (has({"cyc"}) \/ (has(all) /\ (S.ex => d.i \in Calm) /\ (entered \/ d.i = "Rte")))
       [] p = "C28" -> (\E n \in 1 .. j - 1 : tr.s[n].k = "y") /\ (~S.ex \/ d.i \in Calm) /\ has(all)
       [] OTHER -> tags # {}

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
Start(h) == LET b == Machine(h.c, h.m, h.sr, h.st = 1, {}, 65535)
            IN IF h.n = 1 THEN [b EXCEPT !.pd = {0}] ELSE b
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} :
           \E n \in DOMAIN H : /\ t = n
                               /\ tr = H[n]
                               /\ j = 1
                               /\ m = Start(H[n])

End == 1000000
Say(o, tags, i, err) == PrintT("BAD " \o ToJson(<<t, j, tags, i, err, o.k>>))
DoRequest(o) == LET n == Request(m, o.v)
                IN IF n.stop = (o.st = 1) THEN m' = n /\ j' = j + 1
                   ELSE /\ Pid \in {"C12", "C13", "C14", "ALL"} => Say(o, {"reqstop"}, "", 0)
                        /\ m' = n /\ j' = End
DoHost(o) ==
  LET OR == ApplyDelta(m.R, o.r, 1)
      tags == HostTags(o, OR)
  IN IF tags = {} THEN m' = [m EXCEPT !.R = OR] /\ j' = j + 1
     ELSE /\ Pid \in {"C28", "ALL"} => Say(o, tags, "", 0)
          /\ m' = m /\ j' = End
(* A refused write of an exception frame leaves the frame unfinished, and  *)
(* how far it got and where the stack pointer stands depend on the order   *)
(* in which the fields are written, which is nobody's business: the one of *)
(* Core is accepted, and the one with its long words split into words; a   *)
(* history with any other ends there, with only the rest compared.         *)
Unfinished == {"wr", "wx", "rx", "rd"}
DoStep(o) ==
  LET OR == ApplyDelta(m.R, o.r, 1)
      Diff(Q) == StepTags(Q, o, OR) \cup TextTags(Q, o) \cup AltTags(o) \cup PubTags(Q, o)
      S1 == Step(Ctx(m, o.rd, tr.rf))
      t1 == Diff(S1)
      S == IF t1 # {} /\ S1.x.ff /\ S1.x.crash = "" THEN Step([Ctx(m, o.rd, tr.rf) EXCEPT !.lw = TRUE]) ELSE S1
      t2 == IF t1 # {} /\ S1.x.ff /\ S1.x.crash = "" THEN Diff(S) ELSE t1
      x == S.x
      ssp == \A i \in 1 .. 18 : OR[i] = x.R[i] \/ i = SSP
      loose == x.ff /\ t2 # {}
      tags == IF ~loose THEN t2
              ELSE IF S.ex /\ S.d.i \notin Calm \ {"Rte", "Movesr"} THEN t2 \cap {"pan"}
              ELSE (t2 \ Unfinished) \ (IF ssp THEN {"a", "ak", "isp"} ELSE {})
      n0 == [MachineOf(x) EXCEPT !.R = OR, !.sr = o.sr]
      n == IF o.k \in {"i", "d"} /\ S.vec # 0 THEN Request(n0, S.vec) ELSE n0
  IN IF x.crash # ""
     THEN /\ o.p = 1 /\ Pid = "C24" => PrintT("KNOWN " \o ToJson(<<t, j, x.crash>>))
          /\ j' = End /\ m' = m
     ELSE IF tags # {}
     THEN /\ Mine(Pid, S, o, tags) => Say(o, tags, S.d.i, S.x.err)
          /\ j' = End /\ m' = m
     ELSE IF o.rr = 1 \/ loose THEN j' = End /\ m' = m
     ELSE m' = n /\ j' = j + 1

Next == /\ j <= Len(tr.s)
        /\ t' = t /\ tr' = tr
        /\ LET o == tr.s[j]
           IN IF j = 1 /\ ~Fresh(tr) /\ Pid \in {"C28", "ALL"} THEN Say(o, {"fresh"}, "", 0) /\ m' = m /\ j' = End
              ELSE IF o.k = "x" THEN DoRequest(o)
              ELSE IF o.k \in {"w", "l", "p", "h", "y"} THEN DoHost(o)
              ELSE DoStep(o)
==============================================================================
