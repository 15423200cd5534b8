-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The assembler: what each function is asked, as the instruction (in the  *)
(* sense of Decode) with its extension words.  Each line of TRACE has      *)
(* rows <<function, size, direction, x, y, am, am2, hi, lo, words>>: the   *)
(* parameters given to the function and the words it returned (none when   *)
(* it refused).  am is <<mode, register, parameters>> with, as parameters, *)
(* the displacement, the address or the immediate (two words), or the      *)
(* index: address register?, register, long?, displacement.                *)
(*                                                                         *)
(* A returned list of words must decode to the instruction asked and have  *)
(* exactly its extension words; a refused combination must be no           *)
(* instruction of the 68000.                                               *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils

VARIABLES t, rows, done
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} : \E n \in DOMAIN H : t = n /\ rows = H[n].rows /\ done = FALSE
Point == <<t, done>>

(* All that a 68000 decodes *)
All == {Decode(op) : op \in 0..65535}

F(r) == r[1]      Sz(r) == r[2]     Dir(r) == r[3]    X(r) == r[4]    Y(r) == r[5]
M(r) == r[6][1]   R(r) == r[6][2]   Imm(r) == <<r[8], r[9]>>   Words(r) == r[10]

(* Extension words of an addressing mode as a parameter *)
Index(p) == p[1] * 32768 + p[2] * 4096 + p[3] * 2048 + p[4]
Ext(am, sz) ==
  LET p == SubSeq(am, 3, Len(am))  m == am[1]  n == am[2]
  IN IF m = 5 \/ (m = 7 /\ n \in {0, 2}) THEN <<p[1]>>
     ELSE IF m = 6 \/ (m = 7 /\ n = 3) THEN <<Index(p)>>
     ELSE IF m = 7 /\ n = 1 THEN <<p[1], p[2]>>
     ELSE IF m = 7 THEN (IF sz = 4 THEN <<p[1], p[2]>> ELSE IF sz = 2 THEN <<p[2]>> ELSE <<p[2] % 256>>)
     ELSE <<>>
ImmWords(v, sz) == IF sz = 4 THEN v ELSE IF sz = 2 THEN <<v[2]>> ELSE <<v[2] % 256>>

(* The instruction asked: [d, e: extension words].  d is no instruction    *)
(* (Unk) when the parameters name none.                                    *)
None == [d |-> Unk, e |-> <<>>]
A(d, e) == [d |-> d, e |-> e]
BitOp(r, n, k) == LET d == I(n, IF M(r) = 0 THEN 4 ELSE 1, M(r), R(r), IF k = 1 THEN X(r) ELSE 0, 0, k)
                  IN A(d, (IF k = 1 THEN <<>> ELSE <<Y(r)>>) \o Ext(r[6], 1))
Sided(r, left, right) == IF Dir(r) = left THEN 1 ELSE IF Dir(r) = right THEN 0 ELSE -1
Ask(r) ==
  LET f == F(r)  sz == Sz(r)
  IN CASE f \in {"Jmp", "Jsr"} -> A(I(f, 0, M(r), R(r), 0, 0, 0), Ext(r[6], 0))
       [] f = "Pea" -> A(I(f, 4, M(r), R(r), 0, 0, 0), Ext(r[6], 4))
       [] f \in {"Nbcd", "Tas"} -> A(I(f, 1, M(r), R(r), 0, 0, 0), Ext(r[6], 1))
       [] f \in {"Moveccr", "Movefsr", "Movesr"} -> A(I(f, 2, M(r), R(r), 0, 0, 0), Ext(r[6], 2))
       [] f \in {"Clr", "Neg", "Negx", "Not", "Tst"} -> A(I(f, sz, M(r), R(r), 0, 0, 0), Ext(r[6], sz))
       [] f \in {"Addi", "Andi", "Cmpi", "Eori", "Ori", "Subi"} -> A(I(f, sz, M(r), R(r), 0, 0, 0), ImmWords(Imm(r), sz) \o Ext(r[6], sz))
       [] f = "Lea" -> A(I(f, 4, M(r), R(r), X(r), 0, 0), Ext(r[6], 4))
       [] f \in {"Chk", "Divs", "Divu", "Muls", "Mulu"} -> A(I(f, 2, M(r), R(r), X(r), 0, 0), Ext(r[6], 2))
       [] f = "BtstD" -> BitOp(r, "Btst", 1)   [] f = "BtstS" -> BitOp(r, "Btst", 0)
       [] f = "BchgD" -> BitOp(r, "Bchg", 1)   [] f = "BchgS" -> BitOp(r, "Bchg", 0)
       [] f = "BclrD" -> BitOp(r, "Bclr", 1)   [] f = "BclrS" -> BitOp(r, "Bclr", 0)
       [] f = "BsetD" -> BitOp(r, "Bset", 1)   [] f = "BsetS" -> BitOp(r, "Bset", 0)
       [] f \in {"Adda", "Suba", "Cmpa", "Cmp"} -> A(I(f, sz, M(r), R(r), X(r), 0, 0), Ext(r[6], sz))
       [] f = "Eor" -> A(I(f, sz, M(r), R(r), X(r), 0, 1), Ext(r[6], sz))
       [] f \in {"Add", "Sub", "And", "Or"} -> A(I(f, sz, M(r), R(r), X(r), 0, Sided(r, "ea", "reg")), Ext(r[6], sz))
       [] f \in {"Addq", "Subq"} -> IF X(r) \in 1..8 THEN A(I(f, sz, M(r), R(r), X(r) % 8, 0, 0), Ext(r[6], sz)) ELSE None
       [] f \in {"Asm", "Lsm", "Rom", "Roxm"} -> A(I(f, 2, M(r), R(r), 0, 0, Sided(r, "L", "R")), Ext(r[6], 2))
       [] f = "Scc" -> A(I(f, 1, M(r), R(r), Y(r), 0, 0), Ext(r[6], 1))
       [] f = "Movem" -> A(I(f, sz, M(r), R(r), 0, 0, Sided(r, "m2r", "r2m")), <<Y(r)>> \o Ext(r[6], sz))
       [] f = "Movea" -> A(I(f, sz, M(r), R(r), X(r), 0, 0), Ext(r[6], sz))
       [] f = "Move" -> A(I(f, sz, M(r), R(r), r[7][2], r[7][1], 0), Ext(r[6], sz) \o Ext(r[7], sz))
       [] f \in {"Abcd", "Sbcd"} -> A(I(f, 1, -1, Y(r), X(r), 0, Sided(r, "mm", "rr")), <<>>)
       [] f \in {"Addx", "Subx"} -> A(I(f, sz, -1, Y(r), X(r), 0, Sided(r, "mm", "rr")), <<>>)
       [] f = "Exg" -> A(I(f, 4, -1, Y(r), X(r), 0, IF Dir(r) = "xd" THEN 0 ELSE IF Dir(r) = "xa" THEN 1 ELSE IF Dir(r) = "xda" THEN 2 ELSE -1), <<>>)
       [] f = "Movep" -> A(I(f, sz, -1, Y(r), X(r), 0, Sided(r, "r2m", "m2r")), <<r[9]>>)
       [] f \in {"Asr", "Lsr", "Ror", "Roxr"} -> A(I(f, sz, -1, Y(r), X(r), r[9], Sided(r, "L", "R")), <<>>)
       [] f = "Cmpm" -> A(I(f, sz, -1, Y(r), X(r), 0, 0), <<>>)
       [] f = "Ext" -> A(I(f, IF Y(r) = 1 THEN 4 ELSE 2, -1, X(r), 0, 0, 0), <<>>)
       [] f = "Moveusp" -> A(I(f, 4, -1, X(r), 0, 0, Sided(r, "u2r", "r2u")), <<>>)
       [] f = "Swap" -> A(I(f, 4, -1, X(r), 0, 0, 0), <<>>)
       [] f = "Unlk" -> A(I(f, 4, -1, X(r), 0, 0, 0), <<>>)
       [] f = "Trap" -> A(I(f, 0, -1, 0, Y(r), 0, 0), <<>>)
       [] f = "Link" -> A(I(f, 2, -1, X(r), 0, 0, 0), <<r[9]>>)
       [] f = "Dbcc" -> A(I(f, 2, -1, X(r), Y(r), 0, 0), <<r[9]>>)
       [] f = "Moveq" -> A(I(f, 4, -1, 0, X(r), r[9], 0), <<>>)
       [] f \in {"Andiccr", "Oriccr", "Eoriccr"} -> A(I(f, 1, -1, 0, 0, 0, 0), <<r[9] % 256>>)
       [] f \in {"Andisr", "Orisr", "Eorisr", "Stop"} -> A(I(f, 2, -1, 0, 0, 0, 0), <<r[9]>>)
       [] OTHER -> A(I(f, 0, -1, 0, 0, 0, 0), <<>>)

(* An immediate byte is the low half of its word, whatever the high half.  *)
ByteImm(r, d) == d.sz = 1 /\ (ImmKind(d) = 1 \/ (M(r) = 7 /\ R(r) = 4))
SameExt(r, d, w, e) ==
  \/ w = e
  \/ /\ d.i \notin {"Btst", "Bchg", "Bclr", "Bset"} \/ (M(r) = 7 /\ R(r) = 4 /\ d.k = 1)
     /\ Len(w) = Len(e) /\ Len(w) >= 1 /\ ByteImm(r, d)
     /\ w[1] % 256 = e[1] % 256 /\ SubSeq(w, 2, Len(w)) = SubSeq(e, 2, Len(e))
Branch(r) ==
  LET f == F(r)  w == Words(r)  cc == IF f = "Bra" THEN 0 ELSE IF f = "Bsr" THEN 1 ELSE Y(r)  d == r[9]
  IN IF f = "Bcc" /\ cc <= 1 THEN w = <<>>
     ELSE /\ w # <<>>
          /\ \/ w = <<24576 + cc * 256, d>>
             \/ Len(w) = 1 /\ w[1] \div 256 = 96 + cc /\ w[1] % 256 # 0 /\ SExtB16(w[1] % 256) = d
          /\ Decode(w[1]) = I(f, 0, -1, 0, cc, w[1] % 256, 0)
          /\ Len(w) = LengthWords(Decode(w[1]))
Known(r) == F(r) = "BtstS" /\ M(r) = 7 /\ R(r) = 4 /\ Words(r) # <<>> /\ Words(r)[1] = 2108
Plain(r) ==
  LET q == Ask(r)  w == Words(r)
  IN IF w = <<>> THEN q.d = Unk \/ q.d \notin All
     ELSE /\ q.d # Unk /\ Decode(w[1]) = q.d
          /\ Len(w) = LengthWords(q.d)
          /\ SameExt(r, q.d, SubSeq(w, 2, Len(w)), q.e)
Bew(r) == IF Y(r) > 7 THEN Words(r) = <<>> ELSE Words(r) = <<Index(<<X(r), Y(r), Sz(r), r[9]>>)>>
Good(r) == IF F(r) = "Bew" THEN Bew(r) ELSE IF F(r) \in {"Bra", "Bsr", "Bcc"} THEN Branch(r) ELSE Plain(r)

Judge(j) == IF Good(rows[j]) THEN TRUE
            ELSE IF Known(rows[j]) THEN PrintT("KNOWN " \o ToJson(<<t, j, "btst_static immediate">>))
            ELSE PrintT("BAD " \o ToJson(<<t, j, rows[j]>>))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, rows>> /\ \A j \in DOMAIN rows : Judge(j)
=============================================================================
