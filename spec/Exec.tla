-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Execution of one 68000 instruction, as a function on a context record:  *)
(*                                                                         *)
(*  cpu   0 = MC68000, 1 = SCC68070                                        *)
(*  R     registers: 1-8 D0-D7, 9-15 A0-A6, 16 USP, 17 SSP, 18 PC          *)
(*  sr    status register word (implemented bits only)                     *)
(*  stop  TRUE when stopped by STOP;  pd  set of pending exception vectors *)
(*  opc   the current opcode                                               *)
(*  err   0, or the vector the instruction raised (nothing happens after)  *)
(*  fk    how it was raised: "code", "read", "write" fault or "inst"       *)
(*  v, a  last value read, last operand address; op the fetched operand    *)
(*  rq    sequence of <<address, n>>: bytes read                           *)
(*  wq    sequence of <<address, bytes>>: bytes written                    *)
(*  u     condition codes left undefined by the instruction (mask)         *)
(*  ub    TRUE when the result byte itself is undefined (non-decimal BCD)  *)
(*  ud    destination of the undefined byte: 0 = memory at a, else R index *)
(*  miss  the memory content needed at some address is not known           *)
(*  rs    number of RESET signals sent;  pv  exceptions processed          *)
(*  crash the access patterns for which the implementation aborts          *)
(*  mem, rf  memory contents and refused address ranges                    *)
(***************************************************************************)
EXTENDS Decode, Alu

CONSTANTS MemW(_, _),      \* MemW(mem, a): the word at even address a, or -1 if unknown
          MemB(_, _)       \* MemB(mem, a): the byte at a, or -1 if unknown

PC == 18  SSP == 17  USP == 16
SrMask == 42783                                         \* A71F
SrOf(w) == (w \div 32768) * 32768 + Bit(w, 13) * 8192 + Bits(w, 8, 10) * 256 + (w % 32)
CcrOf(sr) == sr % 32
SupSr(sr) == Bit(sr, 13) = 1
TraceSr(sr) == Bit(sr, 15) = 1
IMask(sr) == Bits(sr, 8, 10)
WithF(sr, f) == (sr \div 32) * 32 + f

Sup(c) == SupSr(c.sr)
F(c) == c.sr % 32
AI(c, n) == IF n < 7 THEN 9 + n ELSE IF Sup(c) THEN SSP ELSE USP
A(c, n) == c.R[AI(c, n)]
D(c, n) == c.R[n + 1]
Pc(c) == c.R[PC]

Set(c, i, x) == IF c.err # 0 THEN c ELSE [c EXCEPT !.R[i] = x]
SetA(c, n, x) == Set(c, AI(c, n), x)
SetD(c, n, sz, x) == IF c.err # 0 THEN c ELSE [c EXCEPT !.R[n + 1] = Merge(sz, @, x)]
SetF(c, f) == IF c.err # 0 THEN c ELSE [c EXCEPT !.sr = WithF(@, f)]
SetRes(c, r) == IF c.err # 0 THEN c ELSE [c EXCEPT !.sr = WithF(@, r.f), !.u = r.u]
SetSr(c, w) == IF c.err # 0 THEN c ELSE [c EXCEPT !.sr = SrOf(w)]
Val(c, x) == IF c.err # 0 THEN c ELSE [c EXCEPT !.v = x]
Adr(c, x) == IF c.err # 0 THEN c ELSE [c EXCEPT !.a = x]
Fail(c, e, k) == IF c.err # 0 THEN c ELSE [c EXCEPT !.err = e, !.fk = k]
Raise(c, e) == Fail(c, e, "inst")

(***************************************************************************)
(* Memory                                                                  *)
(***************************************************************************)
RefB(c, x) == \E i \in DOMAIN c.rf : Le32(c.rf[i][1], x) /\ Le32(x, c.rf[i][2])
RefW(c, x) == c.rf # <<>> /\ (RefB(c, x) \/ RefB(c, AddI(x, 1)))

RdB(c) == IF c.err # 0 THEN c
          ELSE IF c.rf # <<>> /\ RefB(c, c.a) THEN Fail(c, 2, "read")
          ELSE LET b == MemB(c.mem, c.a)
               IN IF b < 0 THEN [c EXCEPT !.miss = TRUE, !.v = Zero]
                  ELSE [c EXCEPT !.v = <<0, b>>, !.rq = Append(@, <<c.a, 1>>)]
(* a word at even address x *)
RdW(c, x, k) == IF c.err # 0 THEN c
                ELSE IF RefW(c, x) THEN Fail(c, 2, k)
                ELSE LET w == MemW(c.mem, x)
                     IN IF w < 0 THEN [c EXCEPT !.miss = TRUE, !.v = Zero]
                        ELSE [c EXCEPT !.v = <<0, w>>, !.rq = Append(@, <<x, 2>>)]
RdL(c, x, k) == LET c1 == RdW(c, x, k)
                    c2 == RdW(c1, AddI(x, 2), k)
                IN Val(c2, <<c1.v[2], c2.v[2]>>)
(* operand of size sz at c.a *)
RdMem(c, sz) == IF c.err # 0 THEN c
                ELSE IF sz = 1 THEN RdB(c)
                ELSE IF Odd32(c.a) THEN Fail(c, 3, "read")
                ELSE IF sz = 2 THEN RdW(c, c.a, "read") ELSE RdL(c, c.a, "read")

WrB(c, x, b) == IF c.err # 0 THEN c
                ELSE IF c.rf # <<>> /\ RefB(c, x) THEN Fail(c, 2, "write")
                ELSE [c EXCEPT !.wq = Append(@, <<x, <<b>> >>)]
WrW(c, x, w) == IF c.err # 0 THEN c
                ELSE IF RefW(c, x) THEN Fail(c, 2, "write")
                ELSE [c EXCEPT !.wq = Append(@, <<x, <<w \div 256, w % 256>> >>)]
WrMem(c, sz, y) == IF c.err # 0 THEN c
                   ELSE IF sz = 1 THEN WrB(c, c.a, y[2] % 256)
                   ELSE IF Odd32(c.a) THEN Fail(c, 3, "write")
                   ELSE IF sz = 2 THEN WrW(c, c.a, y[2])
                   ELSE WrW(WrW(c, c.a, y[1]), AddI(c.a, 2), y[2])

Push(c, sz, y) == LET c1 == SetA(c, 7, SubI(A(c, 7), sz))
                  IN WrMem(Adr(c1, A(c1, 7)), sz, y)
Pop(c, sz) == LET p == A(c, 7)
              IN RdMem(Adr(SetA(c, 7, AddI(p, sz)), p), sz)

(***************************************************************************)
(* Instruction stream.  The opcode and extension words are read at PC.     *)
(***************************************************************************)
FetchW(c) == IF c.err # 0 THEN c
             ELSE IF Odd32(Pc(c)) THEN Fail(c, 3, "code")
             ELSE LET c1 == RdW(c, Pc(c), "code")
                  IN [c1 EXCEPT !.R[PC] = AddI(@, 2)]
FetchL(c) == LET c1 == FetchW(c)  c2 == FetchW(c1)
             IN Val(c2, <<c1.v[2], c2.v[2]>>)
(* immediate data of size sz *)
FetchImm(c, sz) == IF sz = 4 THEN FetchL(c)
                   ELSE LET c1 == FetchW(c) IN Val(c1, Trunc(sz, c1.v))

(* Fetch the extension words of an effective address: c.op = [m, r, e, p]  *)
(* with e the extension and p the address of the extension word.           *)
FetchOp(c, m, r, sz) ==
  LET p == Pc(c)
      c1 == IF m < 5 THEN c
            ELSE IF m < 7 THEN FetchW(c)
            ELSE IF r = 1 THEN FetchL(c)
            ELSE IF r = 4 THEN FetchImm(c, sz)
            ELSE FetchW(c)
  IN [c1 EXCEPT !.op = [m |-> m, r |-> r, e |-> IF m < 5 THEN Zero ELSE c1.v, p |-> p]]

Index(c, w) ==
  LET n == Bits(w, 12, 14)
      x == IF w >= 32768 THEN A(c, n) ELSE D(c, n)
  IN IF Bit(w, 11) = 1 THEN x ELSE SExtW(x[2])

(* The address of operand o, with the side effect of its addressing mode. *)
Step7(r, sz) == IF sz = 1 /\ r = 7 THEN 2 ELSE sz
EaAddr(c, o, sz) ==
  IF c.err # 0 THEN c
  ELSE CASE o.m = 2 -> [c EXCEPT !.a = A(c, o.r)]
         [] o.m = 3 -> [c EXCEPT !.a = A(c, o.r), !.R[AI(c, o.r)] = AddI(@, Step7(o.r, sz))]
         [] o.m = 4 -> LET x == SubI(A(c, o.r), Step7(o.r, sz))
                       IN [c EXCEPT !.a = x, !.R[AI(c, o.r)] = x]
         [] o.m = 5 -> [c EXCEPT !.a = Add32(A(c, o.r), SExtW(o.e[2]))]
         [] o.m = 6 -> [c EXCEPT !.a = Add32(Add32(A(c, o.r), SExtB(o.e[2] % 256)), Index(c, o.e[2]))]
         [] o.m = 7 /\ o.r = 0 -> [c EXCEPT !.a = SExtW(o.e[2])]
         [] o.m = 7 /\ o.r = 1 -> [c EXCEPT !.a = o.e]
         [] o.m = 7 /\ o.r = 2 -> [c EXCEPT !.a = Add32(o.p, SExtW(o.e[2]))]
         [] OTHER -> [c EXCEPT !.a = Add32(Add32(o.p, SExtB(o.e[2] % 256)), Index(c, o.e[2]))]

Load(c, o, sz) ==
  CASE o.m = 0 -> Val(c, Trunc(sz, D(c, o.r)))
    [] o.m = 1 -> Val(c, Trunc(sz, A(c, o.r)))
    [] o.m = 7 /\ o.r = 4 -> Val(c, o.e)
    [] OTHER -> RdMem(EaAddr(c, o, sz), sz)
(* store to an operand that has been loaded (its address is c.a) ... *)
StoreBack(c, o, sz, y) == IF o.m = 0 THEN SetD(c, o.r, sz, y) ELSE WrMem(c, sz, y)
(* ... or not *)
Store(c, o, sz, y) == IF o.m = 0 THEN SetD(c, o.r, sz, y) ELSE WrMem(EaAddr(c, o, sz), sz, y)

(***************************************************************************)
(* Interrupts and STOP                                                     *)
(***************************************************************************)
IsIntr(v) == (v >= 25 /\ v <= 31) \/ (v >= 57 /\ v <= 63)
Level(v) == IF IsIntr(v) THEN v % 8 ELSE 0
Inhibited(v, sr) == IsIntr(v) /\ Level(v) # 7 /\ Level(v) <= IMask(sr)
Resumes(v, sr) == v = 0 \/ v = 9 \/ (IsIntr(v) /\ ~Inhibited(v, sr))

(***************************************************************************)
(* Instructions                                                            *)
(***************************************************************************)
(* op on the effective address, result stored back: f(value) is a Res *)
Rmw(c, d, Fn(_)) ==
  LET c1 == FetchOp(c, d.m, d.r, d.sz)
      c2 == Load(c1, c1.op, d.sz)
      r == Fn(c2.v)
  IN IF c2.err # 0 THEN c2 ELSE StoreBack(SetRes(c2, r), c1.op, d.sz, r.v)
(* source at the effective address, destination a data register *)
ToD(c, d, Fn(_, _)) ==
  LET c1 == FetchOp(c, d.m, d.r, d.sz)
      c2 == Load(c1, c1.op, d.sz)
      r == Fn(Trunc(d.sz, D(c2, d.x)), c2.v)
  IN IF c2.err # 0 THEN c2 ELSE SetD(SetRes(c2, r), d.x, d.sz, r.v)
(* two-operand data instruction in either direction: Fn(dst, src, flags) *)
Dyadic(c, d, Fn(_, _)) ==
  IF d.k = 0 THEN ToD(c, d, Fn) ELSE LET G(dst) == Fn(dst, Trunc(d.sz, D(c, d.x))) IN Rmw(c, d, G)
(* the flags only *)
FlagsOnly(c, d, Fn(_)) ==
  LET c1 == FetchOp(c, d.m, d.r, d.sz)
      c2 == Load(c1, c1.op, d.sz)
  IN IF c2.err # 0 THEN c2 ELSE SetRes(c2, Fn(c2.v))
(* immediate to the effective address *)
Imm(c, d, Fn(_, _)) ==
  LET c0 == FetchImm(c, d.sz)
      G(dst) == Fn(dst, c0.v)
  IN Rmw(c0, d, G)
QuickData(x) == <<0, IF x = 0 THEN 8 ELSE x>>

(* Source operand sign-extended, combined with an address register *)
SrcA(c, d) == LET c1 == FetchOp(c, d.m, d.r, d.sz)
                  c2 == Load(c1, c1.op, d.sz)
              IN Val(c2, SExt(d.sz, c2.v))

BitOp(c, d, Fn(_, _)) ==       \* Fn(byte or word, mask) on the 16-bit half that holds the bit
  LET c0 == IF d.k = 1 THEN Val(c, D(c, d.x)) ELSE FetchW(c)
      n == c0.v[2] % (IF d.m = 0 THEN 32 ELSE 8)
      c1 == FetchOp(c0, d.m, d.r, d.sz)
      c2 == Load(c1, c1.op, d.sz)
      old == c2.v
      bitset == IF n < 16 THEN Bit(old[2], n) = 1 ELSE Bit(old[1], n - 16) = 1
      p == P2(n % 16)
      h(x) == Fn(x, p)
      new == IF n < 16 THEN <<old[1], h(old[2])>> ELSE <<h(old[1]), old[2]>>
      f == F(c2) - FZ(F(c2)) * 4 + (IF bitset THEN 0 ELSE 4)
  IN IF c2.err # 0 THEN c2
     ELSE IF d.i = "Btst" THEN SetF(c2, f)
     ELSE StoreBack(SetF(c2, f), c1.op, d.sz, new)
SetBit(x, p) == IF (x \div p) % 2 = 1 THEN x ELSE x + p
ClrBit(x, p) == IF (x \div p) % 2 = 1 THEN x - p ELSE x
ChgBit(x, p) == IF (x \div p) % 2 = 1 THEN x - p ELSE x + p

(* ADDX/SUBX/ABCD/SBCD: registers, or memory with both addresses decremented *)
Extended(c, d, Fn(_, _)) ==
  IF d.k = 0
  THEN LET r == Fn(Trunc(d.sz, D(c, d.x)), Trunc(d.sz, D(c, d.r)))
       IN SetD(SetRes(c, r), d.x, d.sz, r.v)
  ELSE LET c1 == EaAddr(c, [m |-> 4, r |-> d.r], d.sz)
           c2 == EaAddr(c1, [m |-> 4, r |-> d.x], d.sz)
           c3 == RdMem(Adr(c2, c1.a), d.sz)
           c4 == RdMem(Adr(c3, c2.a), d.sz)
           r == Fn(c4.v, c3.v)
       IN IF c4.err # 0 THEN c4 ELSE WrMem(SetRes(c4, r), d.sz, r.v)

(* Decimal operations: undefined on operands that are not decimal digits *)
BcdRes(c, dst, src, r, where) ==
  IF c.err # 0 THEN c
  ELSE IF IsBcd(dst) /\ IsBcd(src) THEN SetRes(c, r)
  ELSE [c EXCEPT !.u = 31, !.ub = TRUE, !.ud = where]
Bcd(c, d, Fn(_, _, _)) ==
  IF d.k = 0
  THEN LET dst == D(c, d.x)[2] % 256  src == D(c, d.r)[2] % 256
           r == Fn(dst, src, F(c))
       IN SetD(BcdRes(c, dst, src, r, d.x + 1), d.x, 1, r.v)
  ELSE LET c1 == EaAddr(c, [m |-> 4, r |-> d.r], 1)
           c2 == EaAddr(c1, [m |-> 4, r |-> d.x], 1)
           c3 == RdB(Adr(c2, c1.a))
           c4 == RdB(Adr(c3, c2.a))
           r == Fn(c4.v[2], c3.v[2], F(c4))
       IN IF c4.err # 0 THEN c4 ELSE WrMem(BcdRes(c4, c4.v[2], c3.v[2], r, 0), 1, r.v)
Nbcd(c, d) ==
  LET c1 == FetchOp(c, d.m, d.r, 1)
      c2 == Load(c1, c1.op, 1)
      r == Sbcd(0, c2.v[2], F(c2))
  IN IF c2.err # 0 THEN c2
     ELSE StoreBack(BcdRes(c2, 0, c2.v[2], r, IF d.m = 0 THEN d.r + 1 ELSE 0), c1.op, 1, r.v)

ShiftOp(i) == CASE i \in {"Asr", "Asm"} -> "as" [] i \in {"Lsr", "Lsm"} -> "ls"
                [] i \in {"Roxr", "Roxm"} -> "rox" [] OTHER -> "ro"
ShiftCount(c, d) == IF d.y = 1 THEN D(c, d.x)[2] % 64 ELSE IF d.x = 0 THEN 8 ELSE d.x

(* MOVEM: registers 0-7 data, 8-15 address *)
RegV(c, i) == IF i < 8 THEN D(c, i) ELSE A(c, i - 8)
SetReg(c, i, x) == IF i < 8 THEN Set(c, i + 1, x) ELSE SetA(c, i - 8, x)
RECURSIVE MovemStoreDown(_, _, _, _), MovemStoreUp(_, _, _, _), MovemLoad(_, _, _, _)
MovemStoreDown(c, list, b, sz) ==        \* bit b of the mask is register 15 - b
  IF b = 16 \/ c.err # 0 THEN c
  ELSE IF Bit(list, b) = 0 THEN MovemStoreDown(c, list, b + 1, sz)
  ELSE MovemStoreDown(WrMem(Adr(c, SubI(c.a, sz)), sz, RegV(c, 15 - b)), list, b + 1, sz)
MovemStoreUp(c, list, b, sz) ==
  IF b = 16 \/ c.err # 0 THEN c
  ELSE IF Bit(list, b) = 0 THEN MovemStoreUp(c, list, b + 1, sz)
  ELSE LET c1 == WrMem(c, sz, RegV(c, b))
       IN MovemStoreUp(Adr(c1, AddI(c1.a, sz)), list, b + 1, sz)
MovemLoad(c, list, b, sz) ==
  IF b = 16 \/ c.err # 0 THEN c
  ELSE IF Bit(list, b) = 0 THEN MovemLoad(c, list, b + 1, sz)
  ELSE LET c1 == RdMem(c, sz)
           c2 == SetReg(c1, b, SExt(sz, c1.v))
       IN MovemLoad(Adr(c2, AddI(c2.a, sz)), list, b + 1, sz)
Movem(c, d) ==
  LET c0 == FetchW(c)
      list == c0.v[2]
      c1 == FetchOp(c0, d.m, d.r, d.sz)
      c2 == IF d.m \in {3, 4} THEN Adr(c1, A(c1, d.r)) ELSE EaAddr(c1, c1.op, d.sz)
      c3 == IF c2.err = 0 /\ Odd32(c2.a) THEN Fail(c2, 3, IF d.k = 1 THEN "read" ELSE "write") ELSE c2
      c4 == CASE d.m = 4 -> MovemStoreDown(c3, list, 0, d.sz)
              [] d.k = 1 -> MovemLoad(c3, list, 0, d.sz)
              [] OTHER -> MovemStoreUp(c3, list, 0, d.sz)
  IN IF d.m \in {3, 4} THEN SetA(c4, d.r, c4.a) ELSE c4

RECURSIVE MovepStore(_, _, _), MovepLoad(_, _, _)
MovepStore(c, bytes, i) ==
  IF i > Len(bytes) \/ c.err # 0 THEN c
  ELSE LET c1 == WrB(c, c.a, bytes[i]) IN MovepStore(Adr(c1, AddI(c1.a, 2)), bytes, i + 1)
MovepLoad(c, got, n) ==                  \* c.v is left to the value made of the bytes
  IF c.err # 0 THEN c
  ELSE IF n = 0 THEN Val(c, OfBytes(got))
  ELSE LET c1 == RdB(c) IN MovepLoad(Adr(c1, AddI(c1.a, 2)), Append(got, c1.v[2]), n - 1)
Movep(c, d) ==
  LET c0 == FetchW(c)
      c1 == Adr(c0, Add32(A(c0, d.r), SExtW(c0.v[2])))
  IN IF d.k = 1 THEN MovepStore(c1, BytesOf(d.sz, D(c1, d.x)), 1)
     ELSE LET c2 == MovepLoad(c1, <<>>, d.sz) IN SetD(c2, d.x, d.sz, c2.v)

(* Displacement of Bcc/BRA/BSR: byte in the opcode, or the next word *)
BranchDisp(c, d) == IF d.y = 0 THEN LET c1 == FetchW(c) IN Val(c1, SExtW(c1.v[2]))
                    ELSE Val(c, SExtB(d.y))

Privil(c, G(_)) == IF c.err # 0 THEN c ELSE IF Sup(c) THEN G(c) ELSE Raise(c, 8)

Exec1(c, d) ==             \* lines 0-3: bit, immediate, MOVEP, MOVE
  CASE d.i \in {"Move"} ->
         LET c1 == FetchOp(c, d.m, d.r, d.sz)
             c2 == FetchOp(c1, d.y, d.x, d.sz)
             c3 == Load(c2, c1.op, d.sz)
             c4 == Store(c3, c2.op, d.sz, c3.v)
         IN SetF(c4, LogicF(d.sz, c3.v, F(c)))
    [] d.i = "Movea" -> LET c1 == SrcA(c, d) IN SetA(c1, d.x, c1.v)
    [] d.i = "Ori"  -> LET G(a, b) == Logic(d.sz, Or32(a, b), F(c)) IN Imm(c, d, G)
    [] d.i = "Andi" -> LET G(a, b) == Logic(d.sz, And32(a, b), F(c)) IN Imm(c, d, G)
    [] d.i = "Eori" -> LET G(a, b) == Logic(d.sz, Xor32(a, b), F(c)) IN Imm(c, d, G)
    [] d.i = "Addi" -> LET G(a, b) == Add(d.sz, a, b) IN Imm(c, d, G)
    [] d.i = "Subi" -> LET G(a, b) == Sub(d.sz, a, b) IN Imm(c, d, G)
    [] d.i = "Cmpi" -> LET c0 == FetchImm(c, d.sz)
                           G(a) == Cmp(d.sz, a, c0.v, F(c))
                       IN FlagsOnly(c0, d, G)
    [] d.i = "Oriccr"  -> LET c0 == FetchW(c) IN SetF(c0, F(c) | (c0.v[2] % 32))
    [] d.i = "Andiccr" -> LET c0 == FetchW(c) IN SetF(c0, F(c) & (c0.v[2] % 32))
    [] d.i = "Eoriccr" -> LET c0 == FetchW(c) IN SetF(c0, F(c) ^^ (c0.v[2] % 32))
    [] d.i = "Orisr"  -> LET c0 == FetchW(c)  G(x) == SetSr(x, x.sr | x.v[2]) IN Privil(c0, G)
    [] d.i = "Andisr" -> LET c0 == FetchW(c)  G(x) == SetSr(x, x.sr & x.v[2]) IN Privil(c0, G)
    [] d.i = "Eorisr" -> LET c0 == FetchW(c)  G(x) == SetSr(x, x.sr ^^ x.v[2]) IN Privil(c0, G)
    [] d.i = "Btst" -> BitOp(c, d, SetBit)
    [] d.i = "Bset" -> BitOp(c, d, SetBit)
    [] d.i = "Bclr" -> BitOp(c, d, ClrBit)
    [] d.i = "Bchg" -> BitOp(c, d, ChgBit)
    [] d.i = "Movep" -> Movep(c, d)

Exec2(c, d) ==             \* line 4
  CASE d.i = "Movem" -> Movem(c, d)
    [] d.i = "Clr" -> LET c1 == FetchOp(c, d.m, d.r, d.sz)
                      IN SetF(Store(c1, c1.op, d.sz, Zero), LogicF(d.sz, Zero, F(c)))
    [] d.i = "Neg"  -> LET G(a) == Sub(d.sz, Zero, a) IN Rmw(c, d, G)
    [] d.i = "Negx" -> LET G(a) == SubX(d.sz, Zero, a, F(c)) IN Rmw(c, d, G)
    [] d.i = "Not"  -> LET G(a) == Logic(d.sz, Com(d.sz, a), F(c)) IN Rmw(c, d, G)
    [] d.i = "Tst"  -> LET G(a) == Logic(d.sz, a, F(c)) IN FlagsOnly(c, d, G)
    [] d.i = "Tas"  -> LET G(a) == [Logic(1, a, F(c)) EXCEPT !.v = <<0, SetBit(a[2], 128)>>] IN Rmw(c, d, G)
    [] d.i = "Nbcd" -> Nbcd(c, d)
    [] d.i = "Chk" -> LET c1 == FetchOp(c, d.m, d.r, 2)
                          c2 == Load(c1, c1.op, 2)
                          x == S16(D(c2, d.x)[2])
                          hi == S16(c2.v[2])
                          f(n) == Flags(FX(F(c)), n, 0, 0, 0)
                      IN IF c2.err # 0 THEN c2
                         ELSE IF x < 0 THEN Raise(SetRes(c2, ResU(Zero, f(1), CZ + CV + CC)), 6)
                         ELSE IF x > hi THEN Raise(SetRes(c2, ResU(Zero, f(0), CZ + CV + CC)), 6)
                         ELSE SetRes(c2, ResU(Zero, f(0), CN + CZ + CV + CC))
    [] d.i = "Lea" -> LET c1 == FetchOp(c, d.m, d.r, 4)
                          c2 == EaAddr(c1, c1.op, 4)
                      IN SetA(c2, d.x, c2.a)
    [] d.i = "Pea" -> LET c1 == FetchOp(c, d.m, d.r, 4)
                          c2 == EaAddr(c1, c1.op, 4)
                      IN Push(c2, 4, c2.a)
    [] d.i = "Jmp" -> LET c1 == FetchOp(c, d.m, d.r, 4)
                          c2 == EaAddr(c1, c1.op, 4)
                      IN Set(c2, PC, c2.a)
    [] d.i = "Jsr" -> LET c1 == FetchOp(c, d.m, d.r, 4)
                          c2 == EaAddr(c1, c1.op, 4)
                      IN Set(Push(c2, 4, Pc(c2)), PC, c2.a)
    [] d.i = "Swap" -> LET x == D(c, d.r)  y == <<x[2], x[1]>>
                       IN SetF(SetD(c, d.r, 4, y), LogicF(4, y, F(c)))
    [] d.i = "Ext" -> LET x == D(c, d.r)
                          y == IF d.sz = 2 THEN <<0, SExtB16(x[2] % 256)>> ELSE SExtW(x[2])
                      IN SetF(SetD(c, d.r, d.sz, y), LogicF(d.sz, y, F(c)))
    [] d.i = "Movefsr" -> LET c1 == FetchOp(c, d.m, d.r, 2) IN Store(c1, c1.op, 2, <<0, c.sr>>)
    [] d.i = "Moveccr" -> LET c1 == FetchOp(c, d.m, d.r, 2)
                              c2 == Load(c1, c1.op, 2)
                          IN SetF(c2, c2.v[2] % 32)
    [] d.i = "Movesr" -> LET c1 == FetchOp(c, d.m, d.r, 2)
                             G(x) == LET c2 == Load(x, x.op, 2) IN SetSr(c2, c2.v[2])
                         IN Privil(c1, G)
    [] d.i = "Moveusp" -> LET G(x) == IF d.k = 1 THEN SetA(x, d.r, x.R[USP]) ELSE Set(x, USP, A(x, d.r))
                          IN Privil(c, G)
    [] d.i = "Link" -> LET c0 == FetchW(c)
                           c1 == SetA(c0, 7, SubI(A(c0, 7), 4))
                           c2 == WrMem(Adr(c1, A(c1, 7)), 4, A(c1, d.r))
                           c3 == SetA(c2, d.r, A(c2, 7))
                       IN SetA(c3, 7, Add32(A(c3, 7), SExtW(c0.v[2])))
    [] d.i = "Unlk" -> LET c1 == Pop(SetA(c, 7, A(c, d.r)), 4) IN SetA(c1, d.r, c1.v)
    [] d.i = "Rts" -> LET c1 == Pop(c, 4) IN Set(c1, PC, c1.v)
    [] d.i = "Rtr" -> LET c1 == Pop(c, 2)
                          c2 == SetF(c1, c1.v[2] % 32)
                          c3 == Pop(c2, 4)
                      IN Set(c3, PC, c3.v)
    [] d.i = "Rte" ->
         LET G(x) == LET c1 == Pop(x, 2)
                         c2 == Pop(c1, 4)
                         c3 == Set(c2, PC, c2.v)
                         c4 == Pop(c3, 2)
                         fmt == c4.v[2] \div 4096
                         c5 == IF fmt = 15 THEN SetA(c4, 7, AddI(A(c4, 7), 26))
                               ELSE IF fmt # 0 THEN Raise(c4, 14) ELSE c4
                     IN SetSr(IF c.cpu % 2 = 0 THEN c3 ELSE c5, c1.v[2])
         IN Privil(c, G)
    [] d.i = "Stop" -> LET c0 == FetchW(c)
                           G(x) == LET c1 == SetSr(x, x.v[2])
                                   IN [c1 EXCEPT !.stop = ~ \E v \in c1.pd : Resumes(v, c1.sr)]
                       IN Privil(c0, G)
    [] d.i = "Reset" -> LET G(x) == [x EXCEPT !.rs = @ + 1] IN Privil(c, G)
    [] d.i = "Nop" -> c
    [] d.i = "Trap" -> Raise(c, 32 + d.x)
    [] d.i = "Trapv" -> IF FV(F(c)) = 1 THEN Raise(c, 7) ELSE c
    [] d.i = "Illegal" -> Raise(c, 4)

Exec3(c, d) ==             \* lines 5-7
  CASE d.i = "Addq" -> IF d.m = 1 THEN SetA(c, d.r, Add32(A(c, d.r), QuickData(d.x)))
                       ELSE LET G(a) == Add(d.sz, a, QuickData(d.x)) IN Rmw(c, d, G)
    [] d.i = "Subq" -> IF d.m = 1 THEN SetA(c, d.r, Sub32(A(c, d.r), QuickData(d.x)))
                       ELSE LET G(a) == Sub(d.sz, a, QuickData(d.x)) IN Rmw(c, d, G)
    [] d.i = "Scc" -> LET c1 == FetchOp(c, d.m, d.r, 1)
                      IN Store(c1, c1.op, 1, <<0, IF Cond(d.x, F(c)) THEN 255 ELSE 0>>)
    [] d.i = "Dbcc" -> LET c0 == FetchW(c)
                           n == (D(c, d.r)[2] + 65535) % B16
                           c1 == SetD(c0, d.r, 2, <<0, n>>)
                       IN IF Cond(d.x, F(c)) THEN c0
                          ELSE IF n = 65535 THEN c1
                          ELSE Set(c1, PC, Add32(Pc(c), SExtW(c0.v[2])))
    [] d.i = "Bra" -> LET c1 == BranchDisp(c, d) IN Set(c1, PC, Add32(Pc(c), c1.v))
    [] d.i = "Bcc" -> LET c1 == BranchDisp(c, d)
                      IN IF Cond(d.x, F(c)) THEN Set(c1, PC, Add32(Pc(c), c1.v)) ELSE c1
    [] d.i = "Bsr" -> LET c1 == BranchDisp(c, d)
                      IN Set(Push(c1, 4, Pc(c1)), PC, Add32(Pc(c), c1.v))
    [] d.i = "Moveq" -> LET y == SExtB(d.y) IN SetF(SetD(c, d.x, 4, y), LogicF(4, y, F(c)))

Exec4(c, d) ==             \* lines 8-D
  CASE d.i = "Or"  -> LET G(a, b) == Logic(d.sz, Or32(a, b), F(c)) IN Dyadic(c, d, G)
    [] d.i = "And" -> LET G(a, b) == Logic(d.sz, And32(a, b), F(c)) IN Dyadic(c, d, G)
    [] d.i = "Eor" -> LET G(a, b) == Logic(d.sz, Xor32(a, b), F(c)) IN Dyadic(c, d, G)
    [] d.i = "Add" -> LET G(a, b) == Add(d.sz, a, b) IN Dyadic(c, d, G)
    [] d.i = "Sub" -> LET G(a, b) == Sub(d.sz, a, b) IN Dyadic(c, d, G)
    [] d.i = "Cmp" -> LET G(b) == Cmp(d.sz, Trunc(d.sz, D(c, d.x)), b, F(c)) IN FlagsOnly(c, d, G)
    [] d.i = "Adda" -> LET c1 == SrcA(c, d) IN SetA(c1, d.x, Add32(A(c1, d.x), c1.v))
    [] d.i = "Suba" -> LET c1 == SrcA(c, d) IN SetA(c1, d.x, Sub32(A(c1, d.x), c1.v))
    [] d.i = "Cmpa" -> LET c1 == SrcA(c, d) IN SetRes(c1, Cmp(4, A(c1, d.x), c1.v, F(c)))
    [] d.i = "Addx" -> LET G(a, b) == AddX(d.sz, a, b, F(c)) IN Extended(c, d, G)
    [] d.i = "Subx" -> LET G(a, b) == SubX(d.sz, a, b, F(c)) IN Extended(c, d, G)
    [] d.i = "Abcd" -> Bcd(c, d, Abcd)
    [] d.i = "Sbcd" -> Bcd(c, d, Sbcd)
    [] d.i = "Cmpm" -> LET c1 == EaAddr(c, [m |-> 3, r |-> d.r], d.sz)
                           c2 == EaAddr(c1, [m |-> 3, r |-> d.x], d.sz)
                           c3 == RdMem(Adr(c2, c1.a), d.sz)
                           c4 == RdMem(Adr(c3, c2.a), d.sz)
                       IN SetRes(c4, Cmp(d.sz, c4.v, c3.v, F(c)))
    [] d.i \in {"Mulu", "Muls"} ->
         LET c1 == FetchOp(c, d.m, d.r, 2)
             c2 == Load(c1, c1.op, 2)
             r == IF d.i = "Mulu" THEN Mulu(D(c2, d.x), c2.v, F(c)) ELSE Muls(D(c2, d.x), c2.v, F(c))
         IN SetD(SetRes(c2, r), d.x, 4, r.v)
    [] d.i \in {"Divu", "Divs"} ->
         LET c1 == FetchOp(c, d.m, d.r, 2)
             c2 == Load(c1, c1.op, 2)
             r == IF d.i = "Divu" THEN Divu(D(c2, d.x), c2.v, F(c)) ELSE Divs(D(c2, d.x), c2.v, F(c))
         IN IF c2.err # 0 THEN c2
            ELSE IF c2.v[2] = 0
            THEN Raise(SetRes(c2, ResU(Zero, Flags(FX(F(c)), 0, 0, 0, 0), CN + CZ + CV)), 5)
            ELSE SetD(SetRes(c2, r), d.x, 4, r.v)
    [] d.i = "Exg" -> LET ix == IF d.k = 1 THEN AI(c, d.x) ELSE d.x + 1
                          iy == IF d.k = 0 THEN d.r + 1 ELSE AI(c, d.r)
                      IN Set(Set(c, ix, c.R[iy]), iy, c.R[ix])

Exec5(c, d) ==             \* line E
  IF d.m >= 0 THEN LET G(a) == Shift(ShiftOp(d.i), d.k = 1, 2, a, 1, F(c)) IN Rmw(c, d, G)
  ELSE LET r == Shift(ShiftOp(d.i), d.k = 1, d.sz, Trunc(d.sz, D(c, d.r)), ShiftCount(c, d), F(c))
       IN SetD(SetRes(c, r), d.r, d.sz, r.v)

Exec(c, d) ==
  LET ln == c.opc \div 4096
  IN IF d.i = "Unknown" THEN Raise(c, IF ln = 10 THEN 10 ELSE IF ln = 15 THEN 11 ELSE 4)
     ELSE IF ln < 4 THEN Exec1(c, d)
     ELSE IF ln = 4 THEN Exec2(c, d)
     ELSE IF ln < 8 THEN Exec3(c, d)
     ELSE IF ln < 14 THEN Exec4(c, d)
     ELSE Exec5(c, d)
=============================================================================
