------------------------------- MODULE Disasm -------------------------------
(***************************************************************************)
(* The text of a disassembled instruction: Texts(mem, op, pc) is the set of*)
(* texts that name instruction op at address pc, with the extension words  *)
(* that mem holds.                                                         *)
(***************************************************************************)
EXTENDS Core

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexN(_), DecN(_)
HexN(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexN(n \div 16) \o HexDigit[(n % 16) + 1]
Hex4(n) == HexDigit[(n \div 4096) + 1] \o HexDigit[((n \div 256) % 16) + 1] \o HexDigit[((n \div 16) % 16) + 1] \o HexDigit[(n % 16) + 1]
Hex(v) == "0x" \o (IF v[1] = 0 THEN HexN(v[2]) ELSE HexN(v[1]) \o Hex4(v[2]))
DecN(n) == IF n < 10 THEN HexDigit[n + 1] ELSE DecN(n \div 10) \o HexDigit[(n % 10) + 1]
(* Long division of a pair by ten *)
Div10(v) == LET r == v[1] % 10 IN <<v[1] \div 10, (r * 65536 + v[2]) \div 10>>
Mod10(v) == LET r == v[1] % 10 IN (r * 65536 + v[2]) % 10
RECURSIVE Dec(_)
Dec(v) == IF v[1] = 0 THEN DecN(v[2]) ELSE Dec(Div10(v)) \o HexDigit[Mod10(v) + 1]
Sgn(n) == IF n < 0 THEN "-" \o DecN(0 - n) ELSE DecN(n)

Conds == <<"T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE">>
Cc(n) == Conds[n + 1]
Sz(n) == IF n = 1 THEN ".B" ELSE IF n = 2 THEN ".W" ELSE ".L"
DR(n) == "D" \o DecN(n)
AR(n) == "A" \o DecN(n)
Ind(n) == "(A" \o DecN(n) \o ")"
Pre(n) == "-(A" \o DecN(n) \o ")"
Post(n) == "(A" \o DecN(n) \o ")+"
Idx(w) == (IF Bit(w, 15) = 1 THEN "A" ELSE "D") \o DecN(Bits(w, 12, 14)) \o (IF Bit(w, 11) = 1 THEN ".L" ELSE ".W")

(* An operand; at: address of its extension words; hex: immediates in hex. *)
(* A set: the unused byte of a byte immediate may show or not.             *)
Imms(mem, sz, at, hex) ==
  LET w == MemW(mem, at)
      vs == IF sz = 4 THEN {<<w, MemW(mem, AddI(at, 2))>>} ELSE IF sz = 2 THEN {<<0, w>>} ELSE {<<0, w>>, <<0, w % 256>>}
  IN {IF hex THEN Hex(v) ELSE Dec(v) : v \in vs}
Ams(mem, m, r, sz, at, hex) ==
  LET w == MemW(mem, at)
  IN CASE m = 0 -> {DR(r)}
       [] m = 1 -> {AR(r)}
       [] m = 2 -> {Ind(r)}
       [] m = 3 -> {Post(r)}
       [] m = 4 -> {Pre(r)}
       [] m = 5 -> {"(" \o Sgn(S16(w)) \o ", " \o AR(r) \o ")"}
       [] m = 6 -> {"(" \o Sgn(S8(w % 256)) \o ", " \o AR(r) \o ", " \o Idx(w) \o ")"}
       [] r = 0 -> {"(" \o Hex(<<0, w>>) \o ").W"}
       [] r = 1 -> {"(" \o Hex(<<w, MemW(mem, AddI(at, 2))>>) \o ").L"}
       [] r = 2 -> {"(" \o Sgn(S16(w)) \o ", PC)"}
       [] r = 3 -> {"(" \o Sgn(S8(w % 256)) \o ", PC, " \o Idx(w) \o ")"}
       [] OTHER -> {"#" \o s : s \in Imms(mem, sz, at, hex)}

Up == [Abcd |-> "ABCD", Sbcd |-> "SBCD", Add |-> "ADD", Sub |-> "SUB", And |-> "AND", Or |-> "OR", Eor |-> "EOR", Cmp |-> "CMP",
       Adda |-> "ADDA", Suba |-> "SUBA", Cmpa |-> "CMPA", Addi |-> "ADDI", Subi |-> "SUBI", Andi |-> "ANDI", Ori |-> "ORI",
       Eori |-> "EORI", Cmpi |-> "CMPI", Addq |-> "ADDQ", Subq |-> "SUBQ", Addx |-> "ADDX", Subx |-> "SUBX",
       Andiccr |-> "ANDI", Oriccr |-> "ORI", Eoriccr |-> "EORI", Andisr |-> "ANDI", Orisr |-> "ORI", Eorisr |-> "EORI",
       Asm |-> "AS", Lsm |-> "LS", Roxm |-> "ROX", Rom |-> "RO", Asr |-> "AS", Lsr |-> "LS", Roxr |-> "ROX", Ror |-> "RO",
       Btst |-> "BTST", Bchg |-> "BCHG", Bclr |-> "BCLR", Bset |-> "BSET", Chk |-> "CHK.W", Divs |-> "DIVS.W", Divu |-> "DIVU.W",
       Muls |-> "MULS.W", Mulu |-> "MULU.W", Clr |-> "CLR", Neg |-> "NEG", Negx |-> "NEGX", Not |-> "NOT", Tst |-> "TST",
       Jmp |-> "JMP", Jsr |-> "JSR", Pea |-> "PEA", Nbcd |-> "NBCD", Tas |-> "TAS",
       Illegal |-> "ILLEGAL", Nop |-> "NOP", Reset |-> "RESET", Rte |-> "RTE", Rtr |-> "RTR", Rts |-> "RTS", Trapv |-> "TRAPV"]

Pfx(p, set) == {p \o s : s \in set}
Sfx(set, p) == {s \o p : s \in set}

Texts(mem, op, pc) ==
  LET d == Decode(op)
      i == d.i
      at == AddI(pc, 2)
      w == MemW(mem, at)
      eat == AddI(at, 2 * ImmKind(d))
      ams(hex) == Ams(mem, d.m, d.r, d.sz, eat, hex)
      disp == IF i = "Dbcc" \/ d.y = 0 THEN w ELSE SExtB16(d.y)
      target == Sgn(S16(disp)) \o " <" \o Hex(Add32(at, SExtW(disp))) \o ">"
      eight(n) == IF n = 0 THEN "8" ELSE DecN(n)
      lr == IF d.k = 1 THEN "L" ELSE "R"
      movep == "(" \o Sgn(S16(w)) \o ", " \o AR(d.r) \o ")"
  IN CASE i = "Unknown" -> {"Unknown instruction " \o Hex4(op) \o " at " \o Hex(pc)}
       [] i \in {"Abcd", "Sbcd"} ->
            {Up[i] \o " " \o (IF d.k = 1 THEN Pre(d.r) \o ", " \o Pre(d.x) ELSE DR(d.r) \o ", " \o DR(d.x))}
       [] i \in {"Addx", "Subx"} ->
            {Up[i] \o Sz(d.sz) \o " " \o (IF d.k = 1 THEN Pre(d.r) \o ", " \o Pre(d.x) ELSE DR(d.r) \o ", " \o DR(d.x))}
       [] i \in {"Add", "Sub", "And", "Or", "Eor", "Cmp"} ->
            IF d.k = 1 THEN Pfx(Up[i] \o Sz(d.sz) \o " " \o DR(d.x) \o ", ", ams(FALSE))
            ELSE Pfx(Up[i] \o Sz(d.sz) \o " ", Sfx(ams(FALSE), ", " \o DR(d.x)))
       [] i \in {"Adda", "Suba", "Cmpa"} -> Pfx(Up[i] \o Sz(d.sz) \o " ", Sfx(ams(FALSE), ", " \o AR(d.x)))
       [] i \in {"Addi", "Subi", "Andi", "Ori", "Eori", "Cmpi"} ->
            UNION {Pfx(Up[i] \o Sz(d.sz) \o " #" \o v \o ", ", ams(FALSE)) : v \in Imms(mem, d.sz, at, FALSE)}
       [] i \in {"Addq", "Subq"} -> Pfx(Up[i] \o Sz(d.sz) \o " #" \o eight(d.x) \o ", ", ams(FALSE))
       [] i \in {"Andiccr", "Oriccr", "Eoriccr"} -> Pfx(Up[i] \o " ", Sfx(Imms(mem, 1, at, TRUE), ", CCR"))
       [] i \in {"Andisr", "Orisr", "Eorisr"} -> Pfx(Up[i] \o " ", Sfx(Imms(mem, 2, at, TRUE), ", SR"))
       [] i \in {"Asm", "Lsm", "Roxm", "Rom"} -> Pfx(Up[i] \o lr \o " ", ams(FALSE))
       [] i \in {"Asr", "Lsr", "Roxr", "Ror"} ->
            {Up[i] \o lr \o Sz(d.sz) \o " " \o (IF d.y = 1 THEN DR(d.x) ELSE "#" \o eight(d.x)) \o ", " \o DR(d.r)}
       [] i = "Bra" -> {"BRA " \o target}
       [] i = "Bsr" -> {"BSR " \o target}
       [] i = "Bcc" -> {"B" \o Cc(d.x) \o " " \o target}
       [] i = "Dbcc" -> {"DB" \o Cc(d.x) \o " " \o DR(d.r) \o ", " \o target}
       [] i \in {"Btst", "Bchg", "Bclr", "Bset"} ->
            Pfx(Up[i] \o " " \o (IF d.k = 1 THEN DR(d.x) ELSE "#" \o DecN(w % 256)) \o ", ", ams(FALSE))
       [] i \in {"Chk", "Divs", "Divu", "Muls", "Mulu"} -> Pfx(Up[i] \o " ", Sfx(ams(FALSE), ", " \o DR(d.x)))
       [] i \in {"Clr", "Neg", "Negx", "Not", "Tst"} -> Pfx(Up[i] \o Sz(d.sz) \o " ", ams(FALSE))
       [] i = "Cmpm" -> {"CMPM" \o Sz(d.sz) \o " " \o Post(d.r) \o ", " \o Post(d.x)}
       [] i = "Exg" -> {"EXG " \o (IF d.k = 1 THEN AR(d.x) ELSE DR(d.x)) \o ", " \o (IF d.k = 0 THEN DR(d.r) ELSE AR(d.r))}
       [] i = "Ext" -> {"EXT" \o Sz(d.sz) \o " " \o DR(d.r)}
       [] i \in {"Illegal", "Nop", "Reset", "Rte", "Rtr", "Rts", "Trapv"} -> {Up[i]}
       [] i \in {"Jmp", "Jsr", "Pea", "Nbcd", "Tas"} -> Pfx(Up[i] \o " ", ams(FALSE))
       [] i = "Lea" -> Pfx("LEA ", Sfx(ams(FALSE), ", " \o AR(d.x)))
       [] i = "Link" -> {"LINK.W " \o AR(d.r) \o ", #" \o Sgn(S16(w))}
       [] i = "Unlk" -> {"UNLK " \o AR(d.r)}
       [] i = "Swap" -> {"SWAP " \o DR(d.r)}
       [] i = "Move" ->
            LET dat == AddI(at, 2 * EaWords(d.m, d.r, d.sz))
            IN UNION {Pfx("MOVE" \o Sz(d.sz) \o " " \o s \o ", ", Ams(mem, d.y, d.x, d.sz, dat, FALSE)) : s \in ams(FALSE)}
       [] i = "Movea" -> Pfx("MOVEA" \o Sz(d.sz) \o " ", Sfx(ams(TRUE), ", " \o AR(d.x)))
       [] i = "Moveccr" -> Pfx("MOVE ", Sfx(ams(TRUE), ", CCR"))
       [] i = "Movesr" -> Pfx("MOVE ", Sfx(ams(TRUE), ", SR"))
       [] i = "Movefsr" -> Pfx("MOVE SR, ", ams(TRUE))
       [] i = "Moveusp" -> {IF d.k = 1 THEN "MOVE USP, " \o AR(d.r) ELSE "MOVE " \o AR(d.r) \o ", USP"}
       [] i = "Movem" -> IF d.k = 1 THEN Pfx("MOVEM" \o Sz(d.sz) \o " ", Sfx(ams(FALSE), ", " \o Hex(<<0, w>>)))
                         ELSE Pfx("MOVEM" \o Sz(d.sz) \o " " \o Hex(<<0, w>>) \o ", ", ams(FALSE))
       [] i = "Movep" -> {"MOVEP" \o Sz(d.sz) \o " " \o (IF d.k = 1 THEN DR(d.x) \o ", " \o movep ELSE movep \o ", " \o DR(d.x))}
       [] i = "Moveq" -> {"MOVEQ.L #" \o Sgn(S8(d.y)) \o ", " \o DR(d.x)}
       [] i = "Scc" -> Pfx("S" \o Cc(d.x) \o " ", ams(FALSE))
       [] i = "Stop" -> {"STOP #" \o Hex(<<0, w>>)}
       [] i = "Trap" -> {"TRAP #" \o DecN(d.x)}
       [] OTHER -> {}
=============================================================================
