------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* The M68000 instruction set: opcode word -> instruction.                 *)
(*                                                                         *)
(* Decode(op) is a record with                                             *)
(*   i    the instruction ("Unknown" when the word is no 68000 instruction)*)
(*   sz   operand size in bytes (0 when the instruction has none)          *)
(*   m, r mode and register of the effective address (m = -1: none)        *)
(*   x, y register numbers / condition / data, as described per line       *)
(*   k    variant: direction, dynamic/static, register/memory ...          *)
(* Written from the M68000 Family Programmer's Reference Manual, not from  *)
(* the decoder table of the implementation.                                *)
(***************************************************************************)
EXTENDS Words

(* Effective address categories.  Mode 7 sub-modes: 0 abs.W 1 abs.L        *)
(* 2 d16(PC) 3 d8(PC,Xn) 4 immediate.                                      *)
EaValid(m, r)  == m < 7 \/ r <= 4
EaData(m, r)   == m # 1 /\ EaValid(m, r)
EaAlter(m, r)  == m < 7 \/ r <= 1
EaDataAlt(m, r) == m # 1 /\ EaAlter(m, r)
EaMemAlt(m, r) == m >= 2 /\ EaAlter(m, r)
EaControl(m, r) == m = 2 \/ m = 5 \/ m = 6 \/ (m = 7 /\ r <= 3)
EaCtlAlt(m, r)  == m = 2 \/ m = 5 \/ m = 6 \/ (m = 7 /\ r <= 1)

I(n, sz, m, r, x, y, k) == [i |-> n, sz |-> sz, m |-> m, r |-> r, x |-> x, y |-> y, k |-> k]
Unk == I("Unknown", 0, -1, 0, 0, 0, 0)
OrUnk(c, d) == IF c THEN d ELSE Unk
SzOf(ss) == IF ss = 0 THEN 1 ELSE IF ss = 1 THEN 2 ELSE 4
(* An operation with a register or memory operand of size sz must not use  *)
(* an address register as a byte operand.                                  *)
NotByteA(sz, m) == ~(sz = 1 /\ m = 1)

Line0(op) ==
  LET m == Bits(op, 3, 5)   r == Bits(op, 0, 2)
      x == Bits(op, 9, 11)  ss == Bits(op, 6, 7)  sz == SzOf(ss)
      imm(n) == OrUnk(ss # 3 /\ EaDataAlt(m, r), I(n, sz, m, r, 0, 0, 0))
      toSr(n, nsr) ==                          \* ORI/ANDI/EORI: CCR and SR forms
        IF op % 256 = 60 THEN I(nsr \o "ccr", 1, -1, 0, 0, 0, 0)
        ELSE IF op % 256 = 124 THEN I(nsr \o "sr", 2, -1, 0, 0, 0, 0)
        ELSE imm(n)
  IN IF Bit(op, 8) = 1
     THEN IF m = 1                                              \* MOVEP
          THEN I("Movep", IF Bit(op, 6) = 1 THEN 4 ELSE 2, -1, r, x, 0, Bit(op, 7))
          ELSE CASE ss = 0 -> OrUnk(EaData(m, r), I("Btst", IF m = 0 THEN 4 ELSE 1, m, r, x, 0, 1))
                 [] ss = 1 -> OrUnk(EaDataAlt(m, r), I("Bchg", IF m = 0 THEN 4 ELSE 1, m, r, x, 0, 1))
                 [] ss = 2 -> OrUnk(EaDataAlt(m, r), I("Bclr", IF m = 0 THEN 4 ELSE 1, m, r, x, 0, 1))
                 [] OTHER  -> OrUnk(EaDataAlt(m, r), I("Bset", IF m = 0 THEN 4 ELSE 1, m, r, x, 0, 1))
     ELSE CASE x = 0 -> toSr("Ori", "Ori")
            [] x = 1 -> toSr("Andi", "Andi")
            [] x = 2 -> imm("Subi")
            [] x = 3 -> imm("Addi")
            [] x = 4 -> CASE ss = 0 -> OrUnk(EaData(m, r) /\ ~(m = 7 /\ r = 4), I("Btst", IF m = 0 THEN 4 ELSE 1, m, r, 0, 0, 0))
                          [] ss = 1 -> OrUnk(EaDataAlt(m, r), I("Bchg", IF m = 0 THEN 4 ELSE 1, m, r, 0, 0, 0))
                          [] ss = 2 -> OrUnk(EaDataAlt(m, r), I("Bclr", IF m = 0 THEN 4 ELSE 1, m, r, 0, 0, 0))
                          [] OTHER  -> OrUnk(EaDataAlt(m, r), I("Bset", IF m = 0 THEN 4 ELSE 1, m, r, 0, 0, 0))
            [] x = 5 -> toSr("Eori", "Eori")
            [] x = 6 -> imm("Cmpi")
            [] OTHER -> Unk

(* MOVE / MOVEA: x, y are the destination register and mode. *)
LineMove(op, sz) ==
  LET m == Bits(op, 3, 5)   r == Bits(op, 0, 2)
      dm == Bits(op, 6, 8)  dr == Bits(op, 9, 11)
  IN IF dm = 1 THEN OrUnk(sz # 1 /\ EaValid(m, r), I("Movea", sz, m, r, dr, 0, 0))
     ELSE OrUnk(EaValid(m, r) /\ NotByteA(sz, m) /\ EaDataAlt(dm, dr), I("Move", sz, m, r, dr, dm, 0))

Line4(op) ==
  LET m == Bits(op, 3, 5)   r == Bits(op, 0, 2)
      x == Bits(op, 9, 11)  ss == Bits(op, 6, 7)  sz == SzOf(ss)
      un(n) == OrUnk(EaDataAlt(m, r), I(n, sz, m, r, 0, 0, 0))
  IN IF Bit(op, 8) = 1
     THEN CASE ss = 2 -> OrUnk(EaData(m, r), I("Chk", 2, m, r, x, 0, 0))
            [] ss = 3 -> OrUnk(EaControl(m, r), I("Lea", 4, m, r, x, 0, 0))
            [] OTHER -> Unk
     ELSE CASE x = 0 -> IF ss = 3 THEN OrUnk(EaDataAlt(m, r), I("Movefsr", 2, m, r, 0, 0, 0)) ELSE un("Negx")
            [] x = 1 -> IF ss = 3 THEN Unk ELSE un("Clr")
            [] x = 2 -> IF ss = 3 THEN OrUnk(EaData(m, r), I("Moveccr", 2, m, r, 0, 0, 0)) ELSE un("Neg")
            [] x = 3 -> IF ss = 3 THEN OrUnk(EaData(m, r), I("Movesr", 2, m, r, 0, 0, 0)) ELSE un("Not")
            [] x = 4 -> CASE ss = 0 -> OrUnk(EaDataAlt(m, r), I("Nbcd", 1, m, r, 0, 0, 0))
                          [] ss = 1 -> IF m = 0 THEN I("Swap", 4, -1, r, 0, 0, 0)
                                       ELSE OrUnk(EaControl(m, r), I("Pea", 4, m, r, 0, 0, 0))
                          [] OTHER -> LET msz == IF ss = 2 THEN 2 ELSE 4
                                      IN IF m = 0 THEN I("Ext", msz, -1, r, 0, 0, 0)
                                         ELSE OrUnk(EaCtlAlt(m, r) \/ m = 4, I("Movem", msz, m, r, 0, 0, 0))
            [] x = 5 -> IF op = 19196 (* 4AFC *) THEN I("Illegal", 0, -1, 0, 0, 0, 0)
                        ELSE IF ss = 3 THEN OrUnk(EaDataAlt(m, r), I("Tas", 1, m, r, 0, 0, 0))
                        ELSE un("Tst")
            [] x = 6 -> IF ss >= 2
                        THEN OrUnk(EaControl(m, r) \/ m = 3, I("Movem", IF ss = 2 THEN 2 ELSE 4, m, r, 0, 0, 1))
                        ELSE Unk
            [] OTHER -> CASE ss = 2 -> OrUnk(EaControl(m, r), I("Jsr", 0, m, r, 0, 0, 0))
                          [] ss = 3 -> OrUnk(EaControl(m, r), I("Jmp", 0, m, r, 0, 0, 0))
                          [] ss = 0 -> Unk
                          [] OTHER -> CASE m \in {0, 1} -> I("Trap", 0, -1, 0, op % 16, 0, 0)
                                        [] m = 2 -> I("Link", 2, -1, r, 0, 0, 0)
                                        [] m = 3 -> I("Unlk", 4, -1, r, 0, 0, 0)
                                        [] m \in {4, 5} -> I("Moveusp", 4, -1, r, 0, 0, m - 4)   \* k=1: USP -> An
                                        [] m = 6 -> CASE r = 0 -> I("Reset", 0, -1, 0, 0, 0, 0)
                                                      [] r = 1 -> I("Nop", 0, -1, 0, 0, 0, 0)
                                                      [] r = 2 -> I("Stop", 2, -1, 0, 0, 0, 0)
                                                      [] r = 3 -> I("Rte", 0, -1, 0, 0, 0, 0)
                                                      [] r = 5 -> I("Rts", 0, -1, 0, 0, 0, 0)
                                                      [] r = 6 -> I("Trapv", 0, -1, 0, 0, 0, 0)
                                                      [] r = 7 -> I("Rtr", 0, -1, 0, 0, 0, 0)
                                                      [] OTHER -> Unk
                                        [] OTHER -> Unk

Line5(op) ==
  LET m == Bits(op, 3, 5)  r == Bits(op, 0, 2)
      x == Bits(op, 9, 11) ss == Bits(op, 6, 7)  cc == Bits(op, 8, 11)
  IN IF ss = 3
     THEN IF m = 1 THEN I("Dbcc", 2, -1, r, cc, 0, 0)
          ELSE OrUnk(EaDataAlt(m, r), I("Scc", 1, m, r, cc, 0, 0))
     ELSE OrUnk(EaAlter(m, r) /\ NotByteA(SzOf(ss), m),
                I(IF Bit(op, 8) = 1 THEN "Subq" ELSE "Addq", SzOf(ss), m, r, x, 0, 0))

Line6(op) ==                                        \* y: displacement byte
  LET cc == Bits(op, 8, 11)
  IN I(IF cc = 0 THEN "Bra" ELSE IF cc = 1 THEN "Bsr" ELSE "Bcc", 0, -1, 0, cc, op % 256, 0)

(* OR/DIV/SBCD (line 8) and AND/MUL/ABCD/EXG (line C) *)
Line8C(op, n, ndu, nds, nbcd) ==
  LET m == Bits(op, 3, 5)  r == Bits(op, 0, 2)
      x == Bits(op, 9, 11) om == Bits(op, 6, 8)
      sz == SzOf(om % 4)
  IN CASE om = 3 -> OrUnk(EaData(m, r), I(ndu, 2, m, r, x, 0, 0))
       [] om = 7 -> OrUnk(EaData(m, r), I(nds, 2, m, r, x, 0, 0))
       [] om < 3 -> OrUnk(EaData(m, r), I(n, sz, m, r, x, 0, 0))
       [] OTHER -> IF m <= 1
                   THEN IF om = 4 THEN I(nbcd, 1, -1, r, x, 0, m)        \* k=1: memory
                        ELSE IF n = "Or" THEN Unk
                        ELSE CASE om = 5 -> I("Exg", 4, -1, r, x, 0, m)  \* k: 0 DD, 1 AA, 2 DA
                               [] om = 6 /\ m = 1 -> I("Exg", 4, -1, r, x, 0, 2)
                               [] OTHER -> Unk
                   ELSE OrUnk(EaMemAlt(m, r), I(n, sz, m, r, x, 0, 1))   \* k=1: to memory

(* ADD (line D) and SUB (line 9) *)
Line9D(op, n, na, nx) ==
  LET m == Bits(op, 3, 5)  r == Bits(op, 0, 2)
      x == Bits(op, 9, 11) om == Bits(op, 6, 8)
      sz == SzOf(om % 4)
  IN CASE om = 3 -> OrUnk(EaValid(m, r), I(na, 2, m, r, x, 0, 0))
       [] om = 7 -> OrUnk(EaValid(m, r), I(na, 4, m, r, x, 0, 0))
       [] om < 3 -> OrUnk(EaValid(m, r) /\ NotByteA(sz, m), I(n, sz, m, r, x, 0, 0))
       [] OTHER -> IF m <= 1 THEN I(nx, sz, -1, r, x, 0, m)
                   ELSE OrUnk(EaMemAlt(m, r), I(n, sz, m, r, x, 0, 1))

LineB(op) ==
  LET m == Bits(op, 3, 5)  r == Bits(op, 0, 2)
      x == Bits(op, 9, 11) om == Bits(op, 6, 8)
      sz == SzOf(om % 4)
  IN CASE om = 3 -> OrUnk(EaValid(m, r), I("Cmpa", 2, m, r, x, 0, 0))
       [] om = 7 -> OrUnk(EaValid(m, r), I("Cmpa", 4, m, r, x, 0, 0))
       [] om < 3 -> OrUnk(EaValid(m, r) /\ NotByteA(sz, m), I("Cmp", sz, m, r, x, 0, 0))
       [] OTHER -> IF m = 1 THEN I("Cmpm", sz, -1, r, x, 0, 0)
                   ELSE OrUnk(EaDataAlt(m, r), I("Eor", sz, m, r, x, 0, 1))

(* Shifts and rotates: k = 1 left, 0 right; register form: x count or      *)
(* register, y = 1 when the count is in register x.                        *)
LineE(op) ==
  LET m == Bits(op, 3, 5)  r == Bits(op, 0, 2)
      x == Bits(op, 9, 11) ss == Bits(op, 6, 7)
      memn == <<"Asm", "Lsm", "Roxm", "Rom">>
      regn == <<"Asr", "Lsr", "Roxr", "Ror">>
  IN IF ss = 3 THEN OrUnk(x <= 3 /\ EaMemAlt(m, r), I(memn[(x % 4) + 1], 2, m, r, 0, 0, Bit(op, 8)))
     ELSE I(regn[Bits(op, 3, 4) + 1], SzOf(ss), -1, r, x, Bit(op, 5), Bit(op, 8))

Decode(op) ==
  LET ln == op \div 4096
  IN CASE ln = 0 -> Line0(op)
       [] ln = 1 -> LineMove(op, 1)
       [] ln = 2 -> LineMove(op, 4)
       [] ln = 3 -> LineMove(op, 2)
       [] ln = 4 -> Line4(op)
       [] ln = 5 -> Line5(op)
       [] ln = 6 -> Line6(op)
       [] ln = 7 -> OrUnk(Bit(op, 8) = 0, I("Moveq", 4, -1, 0, Bits(op, 9, 11), op % 256, 0))
       [] ln = 8 -> Line8C(op, "Or", "Divu", "Divs", "Sbcd")
       [] ln = 9 -> Line9D(op, "Sub", "Suba", "Subx")
       [] ln = 11 -> LineB(op)
       [] ln = 12 -> Line8C(op, "And", "Mulu", "Muls", "Abcd")
       [] ln = 13 -> Line9D(op, "Add", "Adda", "Addx")
       [] ln = 14 -> LineE(op)
       [] OTHER -> Unk

Privileged == {"Andisr", "Eorisr", "Orisr", "Movesr", "Moveusp", "Reset", "Rte", "Stop"}

(* Number of extension words of an effective address with operand size sz. *)
EaWords(m, r, sz) ==
  IF m = 5 \/ m = 6 THEN 1
  ELSE IF m = 7 THEN (IF r = 1 THEN 2 ELSE IF r = 4 THEN (IF sz = 4 THEN 2 ELSE 1) ELSE 1)
  ELSE 0
(* Words fetched before the effective address: immediate data, masks ...   *)
ImmKind(d) ==
  CASE d.i \in {"Ori", "Andi", "Subi", "Addi", "Eori", "Cmpi"} -> IF d.sz = 4 THEN 2 ELSE 1
    [] d.i \in {"Oriccr", "Orisr", "Andiccr", "Andisr", "Eoriccr", "Eorisr", "Stop",
                "Movep", "Movem", "Link", "Dbcc"} -> 1
    [] d.i \in {"Btst", "Bchg", "Bclr", "Bset"} -> 1 - d.k
    [] d.i \in {"Bra", "Bsr", "Bcc"} -> IF d.y = 0 THEN 1 ELSE 0
    [] OTHER -> 0
LengthWords(d) ==
  1 + ImmKind(d) + (IF d.m >= 0 THEN EaWords(d.m, d.r, d.sz) ELSE 0)
    + (IF d.i = "Move" THEN EaWords(d.y, d.x, d.sz) ELSE 0)
=============================================================================
