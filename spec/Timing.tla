------------------------------- MODULE Timing -------------------------------
(***************************************************************************)
(* The time of an interpreter step: the exception processing time of every *)
(* exception processed in it plus, when an instruction completes, the time *)
(* of that instruction.                                                    *)
(***************************************************************************)
EXTENDS Core, TimingTable

(* Models 4 and 5 are the MC68000 with the times of the SCC68070 and the   *)
(* reverse.                                                                *)
Clock(model) == IF model < 4 THEN model ELSE 5 - model

(* Exception processing *)
VectorTime(model, v) ==
  LET cpu == Clock(model) IN
  IF cpu > 1 THEN (IF v = 0 THEN T.VECTOR_RESET[cpu + 1] ELSE IF cpu = 2 THEN 1000003 + 7919 * v ELSE 2000003 + 104729 * v)
  ELSE IF cpu = 0
  THEN CASE v \in {2, 3} -> 50 [] v = 5 -> 38 [] v = 6 -> 40 [] v \in {4, 7, 8, 9} -> 34
         [] v >= 24 /\ v <= 31 -> 44 [] v >= 32 /\ v <= 47 -> 34 [] OTHER -> 40
  ELSE CASE v \in {2, 3} -> 158 [] v \in {4, 7, 8, 9} -> 55 [] v \in {5, 6} -> 64
         [] v >= 24 /\ v <= 31 -> 65 [] v >= 32 /\ v <= 47 -> 52 [] OTHER -> 43
RECURSIVE SumTimes(_, _, _)
SumTimes(cpu, pv, i) == IF i > Len(pv) THEN 0 ELSE VectorTime(cpu, pv[i]) + SumTimes(cpu, pv, i + 1)

(* Addressing modes: the address computation and the transfer of the operand *)
AddrTime(m, r) ==
  CASE m = 2 -> T.EA_ARI [] m = 3 -> T.EA_ARIWPO [] m = 4 -> T.EA_ARIWPR [] m = 5 -> T.EA_ARIWD
    [] m = 6 -> T.EA_ARIWI8
    [] m = 7 -> CASE r = 0 -> T.EA_ABSSHORT [] r = 1 -> T.EA_ABSLONG [] r = 2 -> T.EA_PCIWD
                  [] r = 3 -> T.EA_PCIWI8 [] OTHER -> T.EA_IMMEDIATE
    [] OTHER -> <<0, 0>>
EaTime(cpu, m, r, sz) == IF m \in {0, 1} THEN 0
                         ELSE AddrTime(m, r)[Clock(cpu) + 1] + (IF sz = 4 THEN 4 ELSE 0)

(* Tables by addressing mode, for the instructions that use the address itself *)
Ctl(m, r, ari, ariwd, ariwi8, abss, absl, pcd, pci) ==
  CASE m = 2 -> ari [] m = 5 -> ariwd [] m = 6 -> ariwi8
    [] OTHER -> CASE r = 0 -> abss [] r = 1 -> absl [] r = 2 -> pcd [] OTHER -> pci

RECURSIVE PopCount(_)
PopCount(w) == IF w = 0 THEN 0 ELSE (w % 2) + PopCount(w \div 2)
(* the n-th extension word, n >= 1 *)
ExtWord(c, pc, n) == MemW(c.mem, AddI(pc, 2 * n))

ShiftTime(i, l) ==
  CASE i = "Asr" -> IF l THEN T.ASR_L ELSE T.ASR_BW
    [] i = "Lsr" -> IF l THEN T.LSR_L ELSE T.LSR_BW
    [] i = "Ror" -> IF l THEN T.ROR_L ELSE T.ROR_BW
    [] OTHER -> IF l THEN T.ROXR_L ELSE T.ROXR_BW
CountTime(i) == CASE i = "Asr" -> T.ASR_COUNT [] i = "Lsr" -> T.LSR_COUNT
                  [] i = "Ror" -> T.ROR_COUNT [] OTHER -> T.ROXR_COUNT

(* S: the step (see Core); the time of its instruction, which has completed *)
InstTime(S) ==
  LET d == S.d  c == S.c0  p == Clock(c.cpu) + 1  x == S.x
      reg == d.m \in {0, 1}
      long == d.sz = 4
      ea == EaTime(c.cpu, d.m, d.r, d.sz)
      sel(rbw, rl, mbw, ml) == (IF reg THEN (IF long THEN rl ELSE rbw) ELSE (IF long THEN ml ELSE mbw))[p] + ea
      two(r, m) == (IF d.k = 0 THEN r ELSE m)[p]
      ext(rbw, rl, mbw, ml) == (IF d.k = 0 THEN (IF long THEN rl ELSE rbw) ELSE (IF long THEN ml ELSE mbw))[p]
      rdimm == reg \/ (d.m = 7 /\ d.r = 4)                     \* register or immediate source
      dya(rbw, rl, rdi, mbw, ml) ==
        (IF d.k = 1 THEN (IF long THEN ml ELSE mbw)
         ELSE IF ~long THEN rbw ELSE IF rdimm THEN rdi ELSE rl)[p] + ea
      toA(w, l, rdi) == (IF ~long THEN w ELSE IF rdimm THEN rdi ELSE l)[p] + ea
      bit(dr, dm, sr, sm) == (IF d.k = 1 THEN (IF reg THEN dr ELSE dm) ELSE IF reg THEN sr ELSE sm)[p]
                             + EaTime(c.cpu, d.m, d.r, 1)
      plus(t) == t[p] + ea
      taken == Cond(d.x, F(c))
  IN CASE d.i = "Abcd" -> two(T.ABCD_REG, T.ABCD_MEM)
       [] d.i = "Sbcd" -> two(T.SBCD_REG, T.SBCD_MEM)
       [] d.i = "Nbcd" -> sel(T.NBCD_REG, T.NBCD_REG, T.NBCD_MEM, T.NBCD_MEM)
       [] d.i = "Add" -> dya(T.ADD_REG_BW, T.ADD_REG_L, T.ADD_REG_L_RDIMM, T.ADD_MEM_BW, T.ADD_MEM_L)
       [] d.i = "Sub" -> dya(T.SUB_REG_BW, T.SUB_REG_L, T.SUB_REG_L_RDIMM, T.SUB_MEM_BW, T.SUB_MEM_L)
       [] d.i = "And" -> dya(T.AND_REG_BW, T.AND_REG_L, T.AND_REG_L_RDIMM, T.AND_MEM_BW, T.AND_MEM_L)
       [] d.i = "Or" -> dya(T.OR_REG_BW, T.OR_REG_L, T.OR_REG_L_RDIMM, T.OR_MEM_BW, T.OR_MEM_L)
       [] d.i = "Eor" -> sel(T.EOR_REG_BW, T.EOR_REG_L, T.EOR_MEM_BW, T.EOR_MEM_L)
       [] d.i = "Cmp" -> plus(IF long THEN T.CMP_L ELSE T.CMP_BW)
       [] d.i = "Adda" -> toA(T.ADDA_WORD, T.ADDA_LONG, T.ADDA_LONG_RDIMM)
       [] d.i = "Suba" -> toA(T.SUBA_WORD, T.SUBA_LONG, T.SUBA_LONG_RDIMM)
       [] d.i = "Cmpa" -> plus(T.CMPA)
       [] d.i = "Addi" -> sel(T.ADDI_REG_BW, T.ADDI_REG_L, T.ADDI_MEM_BW, T.ADDI_MEM_L)
       [] d.i = "Subi" -> sel(T.SUBI_REG_BW, T.SUBI_REG_L, T.SUBI_MEM_BW, T.SUBI_MEM_L)
       [] d.i = "Andi" -> sel(T.ANDI_REG_BW, T.ANDI_REG_L, T.ANDI_MEM_BW, T.ANDI_MEM_L)
       [] d.i = "Ori" -> sel(T.ORI_REG_BW, T.ORI_REG_L, T.ORI_MEM_BW, T.ORI_MEM_L)
       [] d.i = "Eori" -> sel(T.EORI_REG_BW, T.EORI_REG_L, T.EORI_MEM_BW, T.EORI_MEM_L)
       [] d.i = "Cmpi" -> sel(T.CMPI_REG_BW, T.CMPI_REG_L, T.CMPI_MEM_BW, T.CMPI_MEM_L)
       [] d.i = "Addq" -> sel(T.ADDQ_REG_BW, T.ADDQ_REG_L, T.ADDQ_MEM_BW, T.ADDQ_MEM_L)
       [] d.i = "Subq" -> sel(IF d.m = 1 THEN T.SUBQ_AREG_BW ELSE T.SUBQ_DREG_BW, T.SUBQ_REG_L, T.SUBQ_MEM_BW, T.SUBQ_MEM_L)
       [] d.i = "Addx" -> ext(T.ADDX_REG_BW, T.ADDX_REG_L, T.ADDX_MEM_BW, T.ADDX_MEM_L)
       [] d.i = "Subx" -> ext(T.SUBX_REG_BW, T.SUBX_REG_L, T.SUBX_MEM_BW, T.SUBX_MEM_L)
       [] d.i = "Cmpm" -> (IF long THEN T.CMPM_L ELSE T.CMPM_BW)[p]
       [] d.i = "Neg" -> sel(T.NEG_REG_BW, T.NEG_REG_L, T.NEG_MEM_BW, T.NEG_MEM_L)
       [] d.i = "Negx" -> sel(T.NEGX_REG_BW, T.NEGX_REG_L, T.NEGX_MEM_BW, T.NEGX_MEM_L)
       [] d.i = "Not" -> sel(T.NOT_REG_BW, T.NOT_REG_L, T.NOT_MEM_BW, T.NOT_MEM_L)
       [] d.i = "Clr" -> sel(T.CLR_REG_BW, T.CLR_REG_L, T.CLR_MEM_BW, T.CLR_MEM_L)
       [] d.i = "Tst" -> sel(T.TST_REG_BW, T.TST_REG_L, T.TST_MEM_BW, T.TST_MEM_L)
       [] d.i = "Tas" -> sel(T.TAS_REG, T.TAS_REG, T.TAS_MEM, T.TAS_MEM)
       [] d.i = "Scc" -> IF taken THEN sel(T.SCC_REG_TRUE, T.SCC_REG_TRUE, T.SCC_MEM_TRUE, T.SCC_MEM_TRUE)
                         ELSE sel(T.SCC_REG_FALSE, T.SCC_REG_FALSE, T.SCC_MEM_FALSE, T.SCC_MEM_FALSE)
       [] d.i = "Btst" -> bit(T.BTST_DYN_REG, T.BTST_DYN_MEM, T.BTST_STA_REG, T.BTST_STA_MEM)
       [] d.i = "Bset" -> bit(T.BSET_DYN_REG, T.BSET_DYN_MEM, T.BSET_STA_REG, T.BSET_STA_MEM)
       [] d.i = "Bclr" -> bit(T.BCLR_DYN_REG, T.BCLR_DYN_MEM, T.BCLR_STA_REG, T.BCLR_STA_MEM)
       [] d.i = "Bchg" -> bit(T.BCHG_DYN_REG, T.BCHG_DYN_MEM, T.BCHG_STA_REG, T.BCHG_STA_MEM)
       [] d.i = "Andiccr" -> T.ANDICCR[p] [] d.i = "Oriccr" -> T.ORICCR[p] [] d.i = "Eoriccr" -> T.EORICCR[p]
       [] d.i = "Andisr" -> T.ANDISR[p] [] d.i = "Orisr" -> T.ORISR[p] [] d.i = "Eorisr" -> T.EORISR[p]
       [] d.i = "Asm" -> plus(T.ASM) [] d.i = "Lsm" -> plus(T.LSM)
       [] d.i = "Rom" -> plus(T.ROM) [] d.i = "Roxm" -> plus(T.ROXM)
       [] d.i \in {"Asr", "Lsr", "Ror", "Roxr"} -> ShiftTime(d.i, long)[p] + CountTime(d.i)[p] * ShiftCount(c, d)
       [] d.i = "Bcc" -> (IF taken THEN T.BCC_BRANCH
                          ELSE IF d.y = 0 THEN T.BCC_NO_BRANCH_WORD ELSE T.BCC_NO_BRANCH_BYTE)[p]
       [] d.i = "Bra" -> (IF d.y = 0 THEN T.BRA_WORD ELSE T.BRA_BYTE)[p]
       [] d.i = "Bsr" -> (IF d.y = 0 THEN T.BSR_WORD ELSE T.BSR_BYTE)[p]
       [] d.i = "Dbcc" -> (IF taken THEN T.DBCC_TRUE
                           ELSE IF D(c, d.r)[2] = 0 THEN T.DBCC_FALSE_NO_BRANCH ELSE T.DBCC_FALSE_BRANCH)[p]
       [] d.i = "Chk" -> plus(T.CHK_NO_TRAP)
       [] d.i = "Mulu" -> plus(T.MULU) [] d.i = "Muls" -> plus(T.MULS)
       [] d.i = "Divu" -> plus(T.DIVU) [] d.i = "Divs" -> plus(T.DIVS)
       [] d.i = "Exg" -> T.EXG[p] [] d.i = "Ext" -> T.EXT[p] [] d.i = "Swap" -> T.SWAP[p]
       [] d.i = "Jmp" -> Ctl(d.m, d.r, T.JMP_ARI, T.JMP_ARIWD, T.JMP_ARIWI8, T.JMP_ABSSHORT, T.JMP_ABSLONG,
                             T.JMP_PCIWD, T.JMP_PCIWI8)[p]
       [] d.i = "Jsr" -> Ctl(d.m, d.r, T.JSR_ARI, T.JSR_ARIWD, T.JSR_ARIWI8, T.JSR_ABSSHORT, T.JSR_ABSLONG,
                             T.JSR_PCIWD, T.JSR_PCIWI8)[p]
       [] d.i = "Lea" -> Ctl(d.m, d.r, T.LEA_ARI, T.LEA_ARIWD, T.LEA_ARIWI8, T.LEA_ABSSHORT, T.LEA_ABSLONG,
                             T.LEA_PCIWD, T.LEA_PCIWI8)[p]
       [] d.i = "Pea" -> Ctl(d.m, d.r, T.PEA_ARI, T.PEA_ARIWD, T.PEA_ARIWI8, T.PEA_ABSSHORT, T.PEA_ABSLONG,
                             T.PEA_PCIWD, T.PEA_PCIWI8)[p]
       [] d.i = "Link" -> T.LINK[p] [] d.i = "Unlk" -> T.UNLK[p]
       [] d.i = "Move" -> (IF d.y = 4 THEN T.MOVE_DST_ARIWPR ELSE T.MOVE_OTHER)[p] + ea
                          + EaTime(c.cpu, d.y, d.x, d.sz)
       [] d.i = "Movea" -> plus(T.MOVEA)
       [] d.i = "Moveq" -> T.MOVEQ[p]
       [] d.i = "Moveccr" -> plus(T.MOVECCR) [] d.i = "Movesr" -> plus(T.MOVESR)
       [] d.i = "Movefsr" -> plus(IF reg THEN T.MOVEFSR_REG ELSE T.MOVEFSR_MEM)
       [] d.i = "Moveusp" -> T.MOVEUSP[p]
       [] d.i = "Movem" ->
            (CASE d.m = 3 -> T.MOVEM_ARIWPO [] d.m = 4 -> T.MOVEM_ARIWPR
               [] OTHER -> Ctl(d.m, d.r, T.MOVEM_ARI, T.MOVEM_ARIWD, T.MOVEM_ARIWI8, T.MOVEM_ABSSHORT,
                               T.MOVEM_ABSLONG, T.MOVEM_PCIWD, T.MOVEM_PCIWI8))[p]
            + (IF d.k = 1 THEN T.MOVEM_MTR[p] ELSE 0)
            + PopCount(ExtWord(c, S.ipc, 1)) * (IF long THEN T.MOVEM_LONG ELSE T.MOVEM_WORD)[p]
       [] d.i = "Movep" -> (IF d.k = 1 THEN (IF long THEN T.MOVEP_RTM_LONG ELSE T.MOVEP_RTM_WORD)
                            ELSE IF long THEN T.MOVEP_MTR_LONG ELSE T.MOVEP_MTR_WORD)[p]
       [] d.i = "Nop" -> T.NOP[p] [] d.i = "Reset" -> T.RESET[p] [] d.i = "Stop" -> T.STOP[p]
       [] d.i = "Rts" -> T.RTS[p] [] d.i = "Rtr" -> T.RTR[p]
       [] d.i = "Rte" -> T.RTE[p] + (IF c.cpu % 2 = 1 /\ MemW(c.mem, AddI(A(c, 7), 6)) \div 4096 = 15 THEN 101 ELSE 0)
       [] d.i = "Trapv" -> T.TRAPV_NO_TRAP[p]

(* n cycles are right for step S.  An instruction that raises an exception *)
(* has no time of its own beyond that of the exception, which is counted   *)
(* when it is processed; for those that read an operand first, and for     *)
(* faulted instructions, only the lower bound is documented.               *)
CyclesOk(S, n) ==
  LET base == SumTimes(S.x.cpu, S.x.pv, 1)
  IN IF S.ex /\ S.x.err = 0 THEN n = base + InstTime(S)
     ELSE IF S.ex /\ (S.x.err \in {2, 3, 5, 6, 14}) THEN n >= base
     ELSE n = base
=============================================================================
