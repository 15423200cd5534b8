------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 8-, 16- and 32-bit machine words.                                       *)
(*                                                                         *)
(* TLC integers are 32-bit signed, so a 32-bit word is the pair            *)
(* <<hi, lo>> of its 16-bit halves.  An operand value of any size is such  *)
(* a pair; a byte or word operand has hi = 0.  Sizes are 1, 2, 4 bytes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

B16 == 65536

W(h, l)  == <<h, l>>
Zero     == <<0, 0>>

(* Bit b of a 16-bit integer, and the bit field lo..hi. *)
Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
          131072,262144,524288,1048576>>
P2(n) == Pow2[n + 1]
Bit(x, b) == (x \div P2(b)) % 2
Bits(x, lo, hi) == (x \div P2(lo)) % P2(hi - lo + 1)

BoolInt(b) == IF b THEN 1 ELSE 0

(* Sign extensions *)
SExtW(x) == IF x >= 32768 THEN <<65535, x>> ELSE <<0, x>>           \* 16 -> 32
SExtB16(x) == IF x >= 128 THEN 65280 + x ELSE x                     \*  8 -> 16
SExtB(x) == SExtW(SExtB16(x))                                       \*  8 -> 32
S16(x) == IF x >= 32768 THEN x - 65536 ELSE x                       \* as integer
S8(x)  == IF x >= 128 THEN x - 256 ELSE x

(* 32-bit modular arithmetic *)
Add32(a, b) == LET l == a[2] + b[2]
               IN << (a[1] + b[1] + (l \div B16)) % B16, l % B16 >>
Neg32(a) == LET l == (B16 - a[2]) % B16
                h == 65535 - a[1] + (IF a[2] = 0 THEN 1 ELSE 0)
            IN << h % B16, l >>
Sub32(a, b) == LET l == a[2] - b[2]
                   br == IF l < 0 THEN 1 ELSE 0
                   h == a[1] - b[1] - br
               IN << IF h < 0 THEN h + B16 ELSE h, IF l < 0 THEN l + B16 ELSE l >>
AddI(a, n) == LET l == a[2] + n              \* small non-negative n
              IN IF l < B16 THEN <<a[1], l>>
                 ELSE << (a[1] + 1) % B16, l - B16 >>
SubI(a, n) == LET l == a[2] - n              \* small non-negative n
              IN IF l >= 0 THEN <<a[1], l>>
                 ELSE << (a[1] + 65535) % B16, l + B16 >>
Odd32(a) == a[2] % 2 = 1
Lt32(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])     \* unsigned
Le32(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

(* Operand values of size sz *)
Trunc(sz, v) == IF sz = 4 THEN v
                ELSE IF sz = 2 THEN <<0, v[2]>> ELSE <<0, v[2] % 256>>
(* Replace the low sz bytes of register r by value v. *)
Merge(sz, r, v) == IF sz = 4 THEN v
                   ELSE IF sz = 2 THEN <<r[1], v[2]>>
                   ELSE <<r[1], (r[2] \div 256) * 256 + (v[2] % 256)>>
Msb(sz, v) == IF sz = 4 THEN v[1] \div 32768
              ELSE IF sz = 2 THEN v[2] \div 32768 ELSE (v[2] \div 128) % 2
IsZero(v) == v[1] = 0 /\ v[2] = 0
SExt(sz, v) == IF sz = 4 THEN v ELSE IF sz = 2 THEN SExtW(v[2]) ELSE SExtB(v[2])
Mask(sz) == IF sz = 4 THEN <<65535, 65535>> ELSE IF sz = 2 THEN <<0, 65535>> ELSE <<0, 255>>

And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Com(sz, v)  == IF sz = 4 THEN <<65535 - v[1], 65535 - v[2]>>
               ELSE IF sz = 2 THEN <<0, 65535 - v[2]>> ELSE <<0, 255 - v[2]>>

(* Bytes of a value, most significant first. *)
BytesOf(sz, v) ==
  IF sz = 4 THEN << v[1] \div 256, v[1] % 256, v[2] \div 256, v[2] % 256 >>
  ELSE IF sz = 2 THEN << v[2] \div 256, v[2] % 256 >> ELSE << v[2] % 256 >>
OfBytes(b) ==
  IF Len(b) = 4 THEN << b[1] * 256 + b[2], b[3] * 256 + b[4] >>
  ELSE IF Len(b) = 2 THEN << 0, b[1] * 256 + b[2] >> ELSE << 0, b[1] >>

Max(a, b) == IF a > b THEN a ELSE b
=============================================================================
