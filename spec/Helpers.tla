------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* The small public values around the core.  Each line of TRACE has rows,  *)
(* by their first field:                                                   *)
(*  "ex"   <<_, vector, vector told, interrupt?, its comparison with each  *)
(*         vector (-1, 0, 1), equal to each?>>                             *)
(*  "vec"  <<_, name, number, number of the exception made from it>>       *)
(*  "isa"  <<_, high byte, privileged? for each low byte>>                 *)
(*  "car"  <<_, size, a, carry, b's, results for each b: the sum and the   *)
(*         difference, signed and unsigned, each with its overflow or      *)
(*         carry, and whether all ways to compute them agree>>             *)
(*  "even" <<_, value, even?, even() (0 or the vector)>>                   *)
(*  "bits" <<_, word, first, last, field, bit first>>                      *)
(*  "sl"   <<_, words, u32_be, i32_be_sized 1 2 4, next word, words left>> *)
(*  "it"   <<_, address, first and last address refused, <<word (or minus  *)
(*         the vector), next address>> each>>                              *)
(*  "size" <<_, sizes of the library's types, those of the C headers>>     *)
(*  "gen"  <<_, high byte, the instruction for each low byte>>: the decoder *)
(*         that the generator writes                                       *)
(*  "sr"   <<_, the initial status register in the C header>>              *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

VARIABLES t, rows, done
None(mem, a) == -1                                   \* no memory is involved here
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} : \E n \in DOMAIN H : t = n /\ rows = H[n].rows /\ done = FALSE
Point == <<t, done>>

(* The core processes pending exceptions in increasing order of Key. *)
Order(v, w) == IF Key(v) < Key(w) THEN -1 ELSE IF v = w THEN 0 ELSE 1
Ex(r) == /\ r[3] = r[2]
         /\ r[4] = BoolInt(IsIntr(r[2]))
         /\ \A w \in 0..255 : r[5][w + 1] = Order(r[2], w) /\ r[6][w + 1] = BoolInt(r[2] = w)

Plain == << <<"ResetSspPc", 0>>, <<"AccessError", 2>>, <<"AddressError", 3>>, <<"IllegalInstruction", 4>>, <<"ZeroDivide", 5>>,
            <<"ChkInstruction", 6>>, <<"TrapVInstruction", 7>>, <<"PrivilegeViolation", 8>>, <<"Trace", 9>>, <<"LineAEmulator", 10>>,
            <<"LineFEmulator", 11>>, <<"FormatError", 14>>, <<"UninitializedInterrupt", 15>>, <<"SpuriousInterrupt", 24>>,
            <<"UserInterrupt", 64>> >>
Vec(r) ==
  /\ r[4] = r[3]
  /\ \/ \E i \in DOMAIN Plain : Plain[i] = <<r[2], r[3]>>
     \/ \E i \in 1..7 : r[2] = "Level" \o ToString(i) \o "Interrupt" /\ r[3] = 24 + i
     \/ \E i \in 1..7 : r[2] = "Level" \o ToString(i) \o "OnChipInterrupt" /\ r[3] = 56 + i
     \/ \E i \in 0..15 : r[2] = "Trap" \o ToString(i) \o "Instruction" /\ r[3] = 32 + i

IsaRow(r) == \A l \in 0..255 : r[3][l + 1] = BoolInt(Decode(r[2] * 256 + l).i \in Privileged)

(* a + b + c and a - b - c, of sz bytes *)
CarAdd(sz, a, b, c) ==
  LET u == Trunc(sz, AddI(Add32(a, b), c))
      ma == Msb(sz, a)  mb == Msb(sz, b)  mu == Msb(sz, u)
      carry == (ma = 1 /\ mb = 1) \/ (mu = 0 /\ (ma = 1 \/ mb = 1))
      over == ma = mb /\ mu # ma
  IN <<u, BoolInt(over), BoolInt(carry)>>
CarSub(sz, a, b, c) ==
  LET u == Trunc(sz, SubI(Sub32(a, b), c))
      ma == Msb(sz, a)  mb == Msb(sz, b)  mu == Msb(sz, u)
      borrow == (ma = 0 /\ mb = 1) \/ (mu = 1 /\ (ma = 0 \/ mb = 1))
      over == ma # mb /\ mu # ma
  IN <<u, BoolInt(over), BoolInt(borrow)>>
Car(r) == \A i \in DOMAIN r[5] : r[6][i] = <<CarAdd(r[2], r[3], r[5][i], r[4]), CarSub(r[2], r[3], r[5][i], r[4]), 1>>

Even(r) == r[3] = BoolInt(~Odd32(r[2])) /\ r[4] = (IF Odd32(r[2]) THEN 3 ELSE 0)
BitsRow(r) == r[5] = Bits(r[2], r[3], r[4]) /\ r[6] = Bit(r[2], r[3])
Sl(r) == LET w == r[2]
         IN /\ r[3] = <<w[1], w[2]>>
            /\ r[4] = <<SExtB(w[1] % 256), SExtW(w[1]), <<w[1], w[2]>>>>
            /\ r[5] = w[1] /\ r[6] = Tail(w)

(* The memory read by the iterator holds this word at a *)
WordOf(a) == ((a[2] \div 2) + (a[1] % 2) * 32768) ^^ 23130
RECURSIVE ItOk(_, _, _, _, _)
ItOk(s, i, a, lo, hi) ==
  i > Len(s) \/
  LET next == IF Odd32(a) THEN a ELSE AddI(a, 2)
      word == IF Odd32(a) THEN -3 ELSE IF Le32(lo, a) /\ Le32(a, hi) THEN -2 ELSE WordOf(a)
  IN s[i] = <<word, next>> /\ ItOk(s, i + 1, next, lo, hi)

Good(r) ==
  CASE r[1] = "ex" -> Ex(r)
    [] r[1] = "vec" -> Vec(r)
    [] r[1] = "isa" -> IsaRow(r)
    [] r[1] = "car" -> Car(r)
    [] r[1] = "even" -> Even(r)
    [] r[1] = "bits" -> BitsRow(r)
    [] r[1] = "sl" -> Sl(r)
    [] r[1] = "gen" -> \A l \in 0..255 : r[3][l + 1] = Decode(r[2] * 256 + l).i
    [] r[1] = "size" -> r[2] = r[3]
    [] r[1] = "sr" -> r[2] = 9984
    [] OTHER -> ItOk(r[5], 1, r[2], r[3], r[4])

Judge(j) == IF Good(rows[j]) THEN TRUE ELSE PrintT("BAD " \o ToJson(<<t, j, rows[j]>>))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, rows>> /\ \A j \in DOMAIN rows : Judge(j)
=============================================================================
