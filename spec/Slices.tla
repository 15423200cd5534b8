------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* Slices used as memory.  The state is one big-endian byte array; the     *)
(* same history of accesses is made on a byte slice and on a word slice    *)
(* (and, for reads, through references to them).  A line of TRACE with     *)
(* "ops" has n the length in bytes, b the initial bytes, and the accesses  *)
(*   <<kind, address, value, results>>                                     *)
(* with kind "rb" "rw" "rl" "wb" "ww" "wl" "it" and, per slice type in the *)
(* order of tr.ty ("u8", "r8", "u16", "r16"), the result: <<0>> refused,   *)
(* <<1, hi, lo>> the value read, <<1>> written, <<2>> panic, <<3>> not     *)
(* made; for "it" the items of the word iterator; and after a write the    *)
(* bytes of the byte slice and of the word slice.                          *)
(* A line with "big" is one with "ops" on a large slice of n zero bytes:   *)
(* contents are the <<place, byte>> that are not zero.                     *)
(* A line with "cpu" has two lists of machine states that must agree: the  *)
(* core on the recording memory (refusing what is outside) and on a slice. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES t, tr, j, mem, phase
Point == <<t, j, phase>>

Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} :
           \E n \in DOMAIN H : t = n /\ tr = H[n] /\ j = 1 /\ mem = (IF H[n].k = "big" THEN {} ELSE H[n].b) /\ phase = "run"

Big == tr.k = "big"
N == IF Big THEN tr.n ELSE Len(mem)
(* Byte offset of 32-bit address a plus d, or -1 outside; no wrapping around into the slice *)
Place(a) == a[1] * 65536 + a[2]
Off(a, d) == IF a[1] >= 16384 THEN -1 ELSE IF Place(a) + d < N THEN Place(a) + d ELSE -1
Fits(a, d) == Off(a, d) >= 0
B(a, d) == IF ~Big THEN mem[Off(a, d) + 1]
           ELSE LET s == {x \in mem : x[1] = Off(a, d)} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[2]
W(a, d) == B(a, d) * 256 + B(a, d + 1)
Odd(a) == a[2] % 2 = 1
Size(k) == IF k \in {"rb", "wb"} THEN 1 ELSE IF k \in {"rw", "ww"} THEN 2 ELSE 4
Inside(k, a) == Fits(a, 0) /\ Fits(a, Size(k) - 1)
Read(k, a) == IF ~Inside(k, a) THEN <<0>>
              ELSE IF k = "rb" THEN <<1, 0, B(a, 0)>>
              ELSE IF k = "rw" THEN <<1, 0, W(a, 0)>> ELSE <<1, W(a, 0), W(a, 2)>>
Bytes(k, v) == IF k = "wb" THEN <<v[2] % 256>>
               ELSE IF k = "ww" THEN <<v[2] \div 256, v[2] % 256>>
               ELSE <<v[1] \div 256, v[1] % 256, v[2] \div 256, v[2] % 256>>
Put(a, bs) ==
  IF Big THEN {x \in mem : x[1] < Place(a) \/ x[1] >= Place(a) + Len(bs)} \cup {x \in {<<Place(a) + i - 1, bs[i]>> : i \in DOMAIN bs} : x[2] # 0}
  ELSE [i \in DOMAIN mem |-> IF i - 1 >= a[2] /\ i - 1 < a[2] + Len(bs) THEN bs[i - a[2]] ELSE mem[i]]
(* The possible contents after a write: a long is two words, of which the first may be inside alone *)
Results(k, a, v) ==
  IF Inside(k, a) THEN {Put(a, Bytes(k, v))}
  ELSE IF k = "wl" /\ Fits(a, 0) /\ Fits(a, 1) THEN {mem, Put(a, <<v[1] \div 256, v[1] % 256>>)} ELSE {mem}
RECURSIVE Items(_, _)
NextA(a) == LET l == a[2] + 2 IN <<(a[1] + l \div 65536) % 65536, l % 65536>>
Items(a, n) == IF n = 0 THEN <<>>
               ELSE IF Odd(a) THEN <<<<3>>>> \o Items(a, n - 1)
               ELSE (IF Inside("rw", a) THEN <<<<1, W(a, 0)>>>> ELSE <<<<2>>>>) \o Items(NextA(a), n - 1)

WordBacked(i) == tr.ty[i] \in {"u16", "r16"}
Free(o, i) == WordBacked(i) /\ Odd(o[2]) /\ Size(o[1]) > 1            \* the caller's mistake: anything but a panic
ReadOk(o) == \A i \in DOMAIN o[4] :
               o[4][i] = <<3>> \/ (IF Free(o, i) THEN o[4][i][1] # 2 ELSE o[4][i] = Read(o[1], o[2]))
WriteOk(o) == \A i \in DOMAIN o[4] :
               o[4][i] = <<3>> \/ o[4][i] = (IF Inside(o[1], o[2]) THEN <<1>> ELSE <<0>>)
ItemsOk(o) == \A i \in DOMAIN o[4] : o[4][i] = Items(o[2], 3)
Content(l) == IF Big THEN {l[i] : i \in DOMAIN l} ELSE l
Fails(what) == phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, j, {what}, tr.s[j], mem>>)) /\ mem' = mem
Ops ==
  LET o == tr.s[j]
  IN IF o[1] = "it" THEN IF ItemsOk(o) THEN phase' = phase /\ mem' = mem ELSE Fails("items")
     ELSE IF o[1] \in {"rb", "rw", "rl"} THEN IF ReadOk(o) THEN phase' = phase /\ mem' = mem ELSE Fails("read")
     ELSE IF ~WriteOk(o) THEN Fails("write")
     ELSE IF Content(o[5]) \notin Results(o[1], o[2], o[3]) \/ o[6] # o[5] THEN Fails("content")
     ELSE phase' = phase /\ mem' = Content(o[5])
Cpu == IF tr.s[j] = tr.w[j] THEN phase' = phase /\ mem' = mem
       ELSE phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, j, {"cpu"}, "", 0>>)) /\ mem' = mem
Next == /\ phase = "run" /\ j <= Len(tr.s)
        /\ j' = j + 1 /\ UNCHANGED <<t, tr>>
        /\ IF tr.k \in {"ops", "big"} THEN Ops ELSE Cpu
=============================================================================
