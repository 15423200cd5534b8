--------------------------------- MODULE Alu ---------------------------------
(***************************************************************************)
(* Arithmetic and logic of the 68000, on operand values (see Words).       *)
(*                                                                         *)
(* Every operation returns a record [v, f, u]: the result, the resulting   *)
(* condition codes XNZVC as an integer 0..31, and the set of condition     *)
(* codes (as a mask) that the manual leaves undefined.                     *)
(***************************************************************************)
EXTENDS Words

CX == 16  CN == 8  CZ == 4  CV == 2  CC == 1
FX(f) == (f \div 16) % 2
FN(f) == (f \div 8) % 2
FZ(f) == (f \div 4) % 2
FV(f) == (f \div 2) % 2
FC(f) == f % 2
Flags(x, n, z, v, c) == 16 * x + 8 * n + 4 * z + 2 * v + c
Res(v, f) == [v |-> v, f |-> f, u |-> 0]
ResU(v, f, u) == [v |-> v, f |-> f, u |-> u]

Z1(v) == IF IsZero(v) THEN 1 ELSE 0

(* a + b + x on sz bytes: value and carry out *)
AddC(sz, a, b, x) ==
  IF sz = 4
  THEN LET l == a[2] + b[2] + x
           h == a[1] + b[1] + (l \div B16)
       IN [v |-> <<h % B16, l % B16>>, c |-> h \div B16]
  ELSE LET m == IF sz = 2 THEN B16 ELSE 256
           s == a[2] + b[2] + x
       IN [v |-> <<0, s % m>>, c |-> s \div m]
(* a - b - x on sz bytes: value and borrow *)
SubC(sz, a, b, x) ==
  IF sz = 4
  THEN LET l == a[2] - b[2] - x
           h == a[1] - b[1] - (IF l < 0 THEN 1 ELSE 0)
       IN [v |-> <<(h + B16) % B16, (l + 2 * B16) % B16>>, c |-> IF h < 0 THEN 1 ELSE 0]
  ELSE LET m == IF sz = 2 THEN B16 ELSE 256
           s == a[2] - b[2] - x
       IN [v |-> <<0, (s + 2 * m) % m>>, c |-> IF s < 0 THEN 1 ELSE 0]

(* Overflow: operands of the same sign giving a result of the other sign. *)
OvAdd(sz, a, b, r) == IF Msb(sz, a) = Msb(sz, b) /\ Msb(sz, r) # Msb(sz, a) THEN 1 ELSE 0
OvSub(sz, d, s, r) == IF Msb(sz, d) # Msb(sz, s) /\ Msb(sz, r) # Msb(sz, d) THEN 1 ELSE 0

Add(sz, d, s) ==
  LET r == AddC(sz, d, s, 0)
  IN Res(r.v, Flags(r.c, Msb(sz, r.v), Z1(r.v), OvAdd(sz, d, s, r.v), r.c))
Sub(sz, d, s) ==                                    \* d - s
  LET r == SubC(sz, d, s, 0)
  IN Res(r.v, Flags(r.c, Msb(sz, r.v), Z1(r.v), OvSub(sz, d, s, r.v), r.c))
Cmp(sz, d, s, f) ==                                 \* X not affected
  LET r == SubC(sz, d, s, 0)
  IN Res(r.v, Flags(FX(f), Msb(sz, r.v), Z1(r.v), OvSub(sz, d, s, r.v), r.c))
(* Extended operations: Z is cleared by a non-zero result, else unchanged. *)
AddX(sz, d, s, f) ==
  LET r == AddC(sz, d, s, FX(f))
  IN Res(r.v, Flags(r.c, Msb(sz, r.v), IF IsZero(r.v) THEN FZ(f) ELSE 0, OvAdd(sz, d, s, r.v), r.c))
SubX(sz, d, s, f) ==
  LET r == SubC(sz, d, s, FX(f))
  IN Res(r.v, Flags(r.c, Msb(sz, r.v), IF IsZero(r.v) THEN FZ(f) ELSE 0, OvSub(sz, d, s, r.v), r.c))

(* N and Z from the result, V and C cleared, X not affected. *)
LogicF(sz, v, f) == Flags(FX(f), Msb(sz, v), Z1(v), 0, 0)
Logic(sz, v, f) == Res(v, LogicF(sz, v, f))

(* Unsigned 16 x 16 -> 32 *)
Mul16(a, b) ==
  LET p == a * (b \div 256)   q == a * (b % 256)
  IN Add32(<<p \div 256, (p % 256) * 256>>, <<q \div B16, q % B16>>)
Mulu(d, s, f) == LET v == Mul16(d[2], s[2]) IN Logic(4, v, f)
Abs16(x) == IF x >= 32768 THEN 65536 - x ELSE x
Muls(d, s, f) ==
  LET p == Mul16(Abs16(d[2]), Abs16(s[2]))
      v == IF (d[2] >= 32768) # (s[2] >= 32768) THEN Neg32(p) ELSE p
  IN Logic(4, v, f)

(* Unsigned 32 / 16, for a dividend below s * 65536: <<quotient, remainder>> *)
DivStep(qr, byte, s) == LET t == qr[2] * 256 + byte IN <<qr[1] * 256 + t \div s, t % s>>
Div32(d, s) == DivStep(DivStep(<<0, d[1]>>, d[2] \div 256, s), d[2] % 256, s)
Divu(d, s, f) ==
  IF d[1] >= s[2] THEN ResU(d, Flags(FX(f), 0, 0, 1, 0), CN + CZ)        \* overflow
  ELSE LET qr == Div32(d, s[2])
       IN Res(<<qr[2], qr[1]>>, Flags(FX(f), qr[1] \div 32768, Z1(<<0, qr[1]>>), 0, 0))
Divs(d, s, f) ==
  LET nd == d[1] >= 32768   ns == s[2] >= 32768
      ad == IF nd THEN Neg32(d) ELSE d
      as == Abs16(s[2])
      qr == Div32(ad, as)
      ov == ad[1] >= as \/ qr[1] > (IF nd # ns THEN 32768 ELSE 32767)
      q  == IF nd # ns THEN (65536 - qr[1]) % B16 ELSE qr[1]
      r  == IF nd THEN (65536 - qr[2]) % B16 ELSE qr[2]
  IN IF ov THEN ResU(d, Flags(FX(f), 0, 0, 1, 0), CN + CZ)
     ELSE Res(<<r, q>>, Flags(FX(f), q \div 32768, Z1(<<0, q>>), 0, 0))

(* Binary coded decimal; operands are bytes (integers).  N and V are       *)
(* undefined; the result is only defined for decimal digits.               *)
IsBcd(b) == b \div 16 <= 9 /\ b % 16 <= 9
BcdVal(b) == (b \div 16) * 10 + (b % 16)
ToBcd(n) == (n \div 10) * 16 + (n % 10)
Abcd(d, s, f) ==
  LET t == BcdVal(d) + BcdVal(s) + FX(f)
      c == t \div 100
      r == ToBcd(t % 100)
  IN ResU(<<0, r>>, Flags(c, 0, IF r = 0 THEN FZ(f) ELSE 0, 0, c), CN + CV)
Sbcd(d, s, f) ==
  LET t == BcdVal(d) - BcdVal(s) - FX(f)
      c == IF t < 0 THEN 1 ELSE 0
      r == ToBcd((t + 100) % 100)
  IN ResU(<<0, r>>, Flags(c, 0, IF r = 0 THEN FZ(f) ELSE 0, 0, c), CN + CV)

(***************************************************************************)
(* Shifts and rotates, one bit at a time.  op is "as", "ls", "rox" or "ro".*)
(* q = [v, x, c, o]: value, X, last bit out, and whether the sign changed. *)
(***************************************************************************)
Shl1(sz, v, b) ==                        \* shift left, b enters at the right
  IF sz = 4 THEN << ((v[1] * 2) % B16) + v[2] \div 32768, ((v[2] * 2) % B16) + b >>
  ELSE IF sz = 2 THEN << 0, ((v[2] * 2) % B16) + b >>
  ELSE << 0, ((v[2] * 2) % 256) + b >>
Shr1(sz, v, b) ==                        \* shift right, b enters at the left
  IF sz = 4 THEN << v[1] \div 2 + b * 32768, v[2] \div 2 + (v[1] % 2) * 32768 >>
  ELSE IF sz = 2 THEN << 0, v[2] \div 2 + b * 32768 >>
  ELSE << 0, v[2] \div 2 + b * 128 >>
ShiftStep(op, left, sz, q) ==
  LET out == IF left THEN Msb(sz, q.v) ELSE q.v[2] % 2
      in  == CASE op = "as" -> (IF left THEN 0 ELSE Msb(sz, q.v))
               [] op = "ls" -> 0
               [] op = "ro" -> out
               [] OTHER -> q.x
      v == IF left THEN Shl1(sz, q.v, in) ELSE Shr1(sz, q.v, in)
  IN [v |-> v,
      x |-> IF op = "ro" THEN q.x ELSE out,
      c |-> out,
      o |-> IF Msb(sz, v) # Msb(sz, q.v) THEN 1 ELSE q.o]
RECURSIVE ShiftN(_, _, _, _, _)
ShiftN(op, left, sz, q, n) == IF n = 0 THEN q ELSE ShiftN(op, left, sz, ShiftStep(op, left, sz, q), n - 1)
(* With a count of 0, C is cleared, except ROXL/ROXR where it is X. *)
Shift(op, left, sz, v, n, f) ==
  LET q == ShiftN(op, left, sz, [v |-> v, x |-> FX(f), c |-> 0, o |-> 0], n)
      c == IF n = 0 THEN (IF op = "rox" THEN FX(f) ELSE 0) ELSE q.c
  IN Res(q.v, Flags(q.x, Msb(sz, q.v), Z1(q.v), IF op = "as" /\ left THEN q.o ELSE 0, c))

(* The sixteen conditions *)
Cond(cc, f) ==
  LET n == FN(f) = 1  z == FZ(f) = 1  v == FV(f) = 1  c == FC(f) = 1
  IN CASE cc = 0 -> TRUE
       [] cc = 1 -> FALSE
       [] cc = 2 -> ~c /\ ~z            \* HI
       [] cc = 3 -> c \/ z              \* LS
       [] cc = 4 -> ~c                  \* CC
       [] cc = 5 -> c                   \* CS
       [] cc = 6 -> ~z                  \* NE
       [] cc = 7 -> z                   \* EQ
       [] cc = 8 -> ~v                  \* VC
       [] cc = 9 -> v                   \* VS
       [] cc = 10 -> ~n                 \* PL
       [] cc = 11 -> n                  \* MI
       [] cc = 12 -> n = v              \* GE
       [] cc = 13 -> n # v              \* LT
       [] cc = 14 -> ~z /\ n = v        \* GT
       [] OTHER -> z \/ n # v           \* LE
=============================================================================
