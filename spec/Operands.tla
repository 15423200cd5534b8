------------------------------ MODULE Operands ------------------------------
(***************************************************************************)
(* What the public decoder says of an instruction, an addressing mode, a   *)
(* size and an index word.  Each line of TRACE has rows, by their first    *)
(* field:                                                                  *)
(*  "ins" <<_, opcode, words that follow, address, opcode told, address    *)
(*         told, address after, descriptions>>: the operands as told by    *)
(*         every public way to decode the instruction (one description     *)
(*         when all agree)                                                 *)
(*  "am"  <<_, mode, register, size, words, address, description, address  *)
(*         after, <<field, words>> assembled, the same as a MOVE           *)
(*         destination (<<>>: refused), register told, the is_ tests,      *)
(*         texts, verifications>>                                          *)
(*  "bew" <<_, address?, register, long?, displacement byte, word (-1:     *)
(*         refused), displacement told, text>>                             *)
(*  "sz"  <<_, size, facts>>      "dir" <<_, direction, text>>             *)
(* An addressing mode is described by <<mode, register, ...>> followed by  *)
(* the displacement, the index word, the address or the value, and for the *)
(* PC relative modes the value of PC they are relative to.                 *)
(***************************************************************************)
EXTENDS Disasm, Json, IOUtils

VARIABLES t, rows, done
None(mem, a) == -1                                   \* no memory is involved here
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} : \E n \in DOMAIN H : t = n /\ rows = H[n].rows /\ done = FALSE
Point == <<t, done>>

(* The addressing mode whose extension words start with e[i], where e[1]   *)
(* is at address at.  A set: the high half of the word of an immediate     *)
(* byte may show or not.                                                   *)
Modes(m, n, sz, e, i, at) ==
  LET p == AddI(at, 2 * (i - 1))
  IN IF m < 5 THEN {<<m, n>>}
     ELSE IF m < 7 THEN {<<m, n, e[i]>>}
     ELSE CASE n = 0 -> {<<7, 0, e[i]>>}
            [] n = 1 -> {<<7, 1, e[i], e[i + 1]>>}
            [] n \in {2, 3} -> {<<7, n, e[i], p[1], p[2]>>}
            [] OTHER -> IF sz = 4 THEN {<<7, 4, e[i], e[i + 1]>>}
                        ELSE IF sz = 2 THEN {<<7, 4, 0, e[i]>>}
                        ELSE {<<7, 4, 0, e[i]>>, <<7, 4, 0, e[i] % 256>>}
Imm32(sz, e) == IF sz = 4 THEN {<<e[1], e[2]>>} ELSE IF sz = 2 THEN {<<0, e[1]>>} ELSE {<<0, e[1]>>, <<0, e[1] % 256>>}

(* The operands of instruction d, whose extension words e are at address at *)
Exchange == <<"xd", "xa", "xda">>
Operands(d, e, at) ==
  LET one == Modes(d.m, d.r, d.sz, e, ImmKind(d) + 1, at)
      disp == IF d.y = 0 THEN e[1] ELSE SExtB16(d.y)
  IN CASE d.i \in {"Oriccr", "Orisr", "Andiccr", "Andisr", "Eoriccr", "Eorisr", "Stop"} -> {<<"Immediate", e[1]>>}
       [] d.i \in {"Ori", "Andi", "Subi", "Addi", "Eori", "Cmpi"} -> {<<"SizeEffectiveAddressImmediate", d.sz, a, v>> : a \in one, v \in Imm32(d.sz, e)}
       [] d.i \in {"Btst", "Bchg", "Bclr", "Bset"} -> {<<"EffectiveAddressCount", a, IF d.k = 1 THEN d.x ELSE e[1] % 256>> : a \in one}
       [] d.i \in {"Jmp", "Jsr", "Movefsr", "Movesr", "Moveccr", "Nbcd", "Pea", "Tas"} -> {<<"EffectiveAddress", a>> : a \in one}
       [] d.i \in {"Clr", "Neg", "Negx", "Not", "Tst"} -> {<<"SizeEffectiveAddress", d.sz, a>> : a \in one}
       [] d.i \in {"Chk", "Divs", "Divu", "Lea", "Muls", "Mulu"} -> {<<"RegisterEffectiveAddress", d.x, a>> : a \in one}
       [] d.i = "Movep" -> {<<"RegisterDirectionSizeRegisterDisplacement", d.x, IF d.k = 1 THEN "r2m" ELSE "m2r", d.sz, d.r, e[1]>>}
       [] d.i = "Movea" -> {<<"SizeRegisterEffectiveAddress", d.sz, d.x, a>> : a \in one}
       [] d.i = "Move" -> {<<"SizeEffectiveAddressEffectiveAddress", d.sz, b, a>> : a \in one, b \in Modes(d.y, d.x, d.sz, e, 1 + EaWords(d.m, d.r, d.sz), at)}
       [] d.i = "Exg" -> {<<"RegisterOpmodeRegister", d.x, Exchange[d.k + 1], d.r>>}
       [] d.i = "Ext" -> {<<"OpmodeRegister", IF d.sz = 2 THEN 2 ELSE 3, d.r>>}
       [] d.i = "Trap" -> {<<"Vector", d.x>>}
       [] d.i = "Link" -> {<<"RegisterDisplacement", d.r, e[1]>>}
       [] d.i \in {"Swap", "Unlk"} -> {<<"Register", d.r>>}
       [] d.i = "Moveusp" -> {<<"DirectionRegister", IF d.k = 1 THEN "u2r" ELSE "r2u", d.r>>}
       [] d.i = "Movem" -> {<<"DirectionSizeEffectiveAddressList", IF d.k = 1 THEN "m2r" ELSE "r2m", d.sz, a, e[1]>> : a \in one}
       [] d.i \in {"Addq", "Subq"} -> {<<"DataSizeEffectiveAddress", d.x, d.sz, a>> : a \in one}
       [] d.i = "Scc" -> {<<"ConditionEffectiveAddress", d.x, a>> : a \in one}
       [] d.i = "Dbcc" -> {<<"ConditionRegisterDisplacement", d.x, d.r, e[1]>>}
       [] d.i \in {"Bra", "Bsr"} -> {<<"Displacement", disp>>}
       [] d.i = "Bcc" -> {<<"ConditionDisplacement", d.x, disp>>}
       [] d.i = "Moveq" -> {<<"RegisterData", d.x, d.y>>}
       [] d.i \in {"Add", "And", "Or", "Sub"} -> {<<"RegisterDirectionSizeEffectiveAddress", d.x, IF d.k = 1 THEN "ea" ELSE "reg", d.sz, a>> : a \in one}
       [] d.i \in {"Cmp", "Eor"} -> {<<"RegisterDirectionSizeEffectiveAddress", d.x, q, d.sz, a>> : a \in one, q \in {"ea", "reg"}}
       [] d.i \in {"Adda", "Cmpa", "Suba"} -> {<<"RegisterSizeEffectiveAddress", d.x, d.sz, a>> : a \in one}
       [] d.i \in {"Abcd", "Sbcd", "Addx", "Subx"} -> {<<"RegisterSizeModeRegister", d.x, d.sz, IF d.k = 1 THEN "mm" ELSE "rr", d.r>>}
       [] d.i = "Cmpm" -> {<<"RegisterSizeRegister", d.x, d.sz, d.r>>}
       [] d.i \in {"Asm", "Lsm", "Roxm", "Rom"} -> {<<"DirectionEffectiveAddress", IF d.k = 1 THEN "L" ELSE "R", a>> : a \in one}
       [] d.i \in {"Asr", "Lsr", "Roxr", "Ror"} -> {<<"RotationDirectionSizeModeRegister", d.x, IF d.k = 1 THEN "L" ELSE "R", d.sz, d.y, d.r>>}
       [] OTHER -> {<<"NoOperands">>}
Ins(r) ==
  LET d == Decode(r[2])
  IN /\ r[5] = r[2] /\ r[6] = r[4]
     /\ r[7] = AddI(r[4], 2 * LengthWords(d))
     /\ Len(r[8]) = 1
     /\ r[8][1] \in Operands(d, r[3], AddI(r[4], 2))

(* Addressing modes *)
Ext(a) == IF a[1] < 5 THEN <<>> ELSE IF a[1] < 7 \/ a[2] # 1 THEN <<a[3]>> ELSE <<a[3], a[4]>>
Assembled(a, sz) == <<a[1] * 8 + a[2], IF a[1] = 7 /\ a[2] = 4 THEN (IF sz = 4 THEN <<a[3], a[4]>> ELSE <<a[4]>>) ELSE Ext(a)>>
AsDst(a) == IF a[1] = 7 /\ a[2] >= 2 THEN <<>> ELSE <<a[2] * 512 + a[1] * 64, Ext(a)>>
Tests(a) == [i \in 1..6 |-> BoolInt(<<a[1] = 0, a[1] = 1, a[1] <= 1, a[1] = 3, a[1] = 4, a[1] = 7 /\ a[2] = 4>>[i])]
LowerDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE LowN(_)
LowN(n) == IF n < 16 THEN LowerDigit[n + 1] ELSE LowN(n \div 16) \o LowerDigit[(n % 16) + 1]
Low4(n) == LowerDigit[(n \div 4096) + 1] \o LowerDigit[((n \div 256) % 16) + 1] \o LowerDigit[((n \div 16) % 16) + 1] \o LowerDigit[(n % 16) + 1]
Low(v) == "0x" \o (IF v[1] = 0 THEN LowN(v[2]) ELSE LowN(v[1]) \o Low4(v[2]))
Text(a) ==
  LET m == a[1]  n == a[2]
  IN CASE m = 0 -> DR(n)   [] m = 1 -> AR(n)   [] m = 2 -> Ind(n)   [] m = 3 -> Post(n)   [] m = 4 -> Pre(n)
       [] m = 5 -> "(" \o Sgn(S16(a[3])) \o ", " \o AR(n) \o ")"
       [] m = 6 -> "(" \o Sgn(S8(a[3] % 256)) \o ", " \o AR(n) \o ", " \o Idx(a[3]) \o ")"
       [] n = 0 -> "(" \o Hex(<<0, a[3]>>) \o ").W"
       [] n = 1 -> "(" \o Hex(<<a[3], a[4]>>) \o ").L"
       [] n = 2 -> "(" \o Sgn(S16(a[3])) \o ", PC)"
       [] OTHER -> "(" \o Sgn(S8(a[3] % 256)) \o ", PC, " \o Idx(a[3]) \o ")"
Texts3(a) == IF a[1] = 7 /\ a[2] = 4 THEN LET v == <<a[3], a[4]>> IN <<"#" \o Dec(v), "#" \o Low(v), "#" \o Hex(v)>>
             ELSE LET s == Text(a) IN <<s, s, s>>
Listed(x, s) == \E i \in DOMAIN s : s[i] = x
Verified(a, modes, regs) ==
  Listed(a[1], modes) /\ (IF a[1] = 7 THEN Listed(a[2], regs) ELSE a[2] <= 7)
Am(r) ==
  LET q == r[7]  sz == r[4]
  IN /\ q \in Modes(r[2], r[3], sz, r[5], 1, r[6])
     /\ r[8] = AddI(r[6], 2 * EaWords(r[2], r[3], sz))
     /\ r[9] = Assembled(q, sz)
     /\ r[10] = AsDst(q)
     /\ r[11] = (IF q[1] < 7 THEN q[2] ELSE -1)
     /\ r[12] = Tests(q)
     /\ r[13] = Texts3(q)
     /\ \A i \in DOMAIN r[14] : r[14][i][4] = BoolInt(Verified(IF q[1] < 7 THEN <<q[1], r[14][i][3]>> ELSE q, r[14][i][1], r[14][i][2]))

Bew(r) ==
  IF r[3] > 7 THEN r[6] = -1
  ELSE /\ r[6] = r[2] * 32768 + r[3] * 4096 + r[4] * 2048 + r[5]
       /\ r[7] = r[5]
       /\ r[8] = Idx(r[6])

(* into_bit (-1: refused), into_move, into u16, as_word_long, is_byte,     *)
(* is_word, is_long, as number, the text; then the sizes made from_bit 0 1,*)
(* from_move 1 2 3 and the refusal of 0 and 4, from u16 0 1 2 and the      *)
(* refusal of 3                                                            *)
Facts(sz) ==
  << IF sz = 1 THEN -1 ELSE sz \div 4, IF sz = 1 THEN 1 ELSE IF sz = 2 THEN 3 ELSE 2, sz \div 2, IF sz = 1 THEN 2 ELSE sz,
     BoolInt(sz = 1), BoolInt(sz = 2), BoolInt(sz = 4), sz, IF sz = 1 THEN "B" ELSE IF sz = 2 THEN "W" ELSE "L",
     <<2, 4>>, <<1, 4, 2, -1, -1>>, <<1, 2, 4, -1>> >>
Good(r) ==
  CASE r[1] = "ins" -> Ins(r)
    [] r[1] = "am" -> Am(r)
    [] r[1] = "bew" -> Bew(r)
    [] r[1] = "sz" -> r[3] = Facts(r[2])
    [] OTHER -> r[3] = (IF r[2] \in {"L", "R"} THEN r[2] ELSE "")

Judge(j) == IF Good(rows[j]) THEN TRUE ELSE PrintT("BAD " \o ToJson(<<t, j, rows[j]>>))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, rows>> /\ \A j \in DOMAIN rows : Judge(j)
=============================================================================
