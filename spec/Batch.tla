-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Grids of operand values: one instruction on every combination of listed *)
(* operands and condition codes.  Each line of TRACE has                   *)
(*   c, m  CPU model, the 18 registers          sy  the system byte (word) *)
(*   w     words in memory, <<low address, word>> (the code, at PC)        *)
(*   z     operand size     pa, pb  places of the two operands, po places  *)
(*         of the results: <<0, register>>, <<1, low address>> or <<2, 0>> *)
(*         for none                                                *)
(*   as, bs, fs   the values given to them and the condition codes         *)
(*   rx    the registers after the first combination                       *)
(*   o     for each combination, in order: sr + 2^16 vector + 2^24 (1 if   *)
(*         another register differs from rx, or memory elsewhere was       *)
(*         written, or the call panicked), then the result values          *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

VARIABLES t, done
Lines == ndJsonDeserialize(IOEnv.TRACE)

(* mem: sequence of <<low address, word>>, the last one found counts *)
RECURSIVE Look(_, _, _)
Look(w, a, i) == IF i = 0 THEN -1 ELSE IF w[i][1] = a THEN w[i][2] ELSE Look(w, a, i - 1)
ListW(mem, a) == IF a[1] # 0 THEN -1 ELSE Look(mem, a[2], Len(mem))
ListB(mem, a) == IF a[1] # 0 THEN -1
                 ELSE LET w == Look(mem, a[2] - (a[2] % 2), Len(mem))
                      IN IF w < 0 THEN -1 ELSE IF a[2] % 2 = 0 THEN w \div 256 ELSE w % 256

PutR(R, p, v) == IF p[1] = 0 THEN [R EXCEPT ![p[2]] = v] ELSE R
PutM(w, p, z, v) ==
  IF p[1] # 1 THEN w
  ELSE IF z = 4 THEN w \o <<<<p[2], v[1]>>, <<p[2] + 2, v[2]>> >>
  ELSE IF z = 2 THEN Append(w, <<p[2], v[2]>>)
  ELSE IF p[2] % 2 = 0 THEN Append(w, <<p[2], (v[2] % 256) * 256 + 90>>)
  ELSE Append(w, <<p[2] - 1, (v[2] % 256) + 23040>>)

RECURSIVE Bytes(_, _, _)
Bytes(wq, i, a) ==                       \* the byte written last at a, or -1
  IF i = 0 THEN -1
  ELSE IF wq[i][1][1] = 0 /\ wq[i][1][2] <= a /\ a < wq[i][1][2] + Len(wq[i][2])
  THEN wq[i][2][a - wq[i][1][2] + 1] ELSE Bytes(wq, i - 1, a)
After(x, a) == LET b == Bytes(x.wq, Len(x.wq), a) IN IF b >= 0 THEN b ELSE ListB(x.mem, <<0, a>>)
Result(x, p, z) ==
  CASE p[1] = 0 -> x.R[p[2]]
    [] z = 1 -> <<0, After(x, p[2])>>
    [] z = 2 -> <<0, After(x, p[2]) * 256 + After(x, p[2] + 1)>>
    [] OTHER -> <<After(x, p[2]) * 256 + After(x, p[2] + 1), After(x, p[2] + 2) * 256 + After(x, p[2] + 3)>>

Judge(h) ==
  LET c0 == Ctx(Machine(h.c, h.m, h.sy, FALSE, {}, 65535), h.w, <<>>)
      op == ListW(h.w, Pc(c0))
      d == Decode(op)
      c1 == [c0 EXCEPT !.opc = op, !.R[PC] = AddI(@, 2)]
      na == Len(h.as)  nb == Len(h.bs)  nf == Len(h.fs)
      st == 1 + 2 * Len(h.po)
      Restart(x) == IF x.err \in Restarts THEN [x EXCEPT !.R[PC] = Pc(c0)] ELSE x
      Run(i, k, f) == Restart(
        Exec([c1 EXCEPT !.R = PutR(PutR(@, h.pa, h.as[i]), h.pb, h.bs[k]),
                        !.mem = PutM(PutM(@, h.pa, h.z, h.as[i]), h.pb, h.zb, h.bs[k]),
                        !.sr = @ + h.fs[f]], d))
      outs == {p[2] : p \in {h.po[n] : n \in {q \in DOMAIN h.po : h.po[q][1] = 0}}}
      ins == {h.pa, h.pb}
      Others(x) == \A r \in 1..18 : \/ r \in outs
                                    \/ <<0, r>> \in ins          \* the harness compares it with its own value
                                    \/ x.R[r] = h.rx[r]
      Kept(x, i, k) == /\ h.pa[1] = 0 /\ h.pa[2] \notin outs => x.R[h.pa[2]] = (IF h.pa = h.pb THEN h.bs[k] ELSE h.as[i])
                       /\ h.pb[1] = 0 /\ h.pb[2] \notin outs => x.R[h.pb[2]] = h.bs[k]
      Elsewhere(x) == \E n \in DOMAIN x.wq : \A q \in DOMAIN h.po : h.po[q][1] # 1 \/ x.wq[n][1][2] < h.po[q][2] \/ x.wq[n][1][2] >= h.po[q][2] + h.zb
      Ok(i, k, f) ==
        LET x == Run(i, k, f)
            e == ((((i - 1) * nb) + (k - 1)) * nf + (f - 1)) * st + 1
            meta == h.o[e]
            sr == meta % 65536
            vec == (meta \div 65536) % 256
            S == [x |-> x, c0 |-> c1]
            val(n) == LET v == Result(x, h.po[n], h.zb)  hi == h.o[e + 2 * n - 1]  lo == h.o[e + 2 * n]
                      IN \/ v[1] = hi /\ v[2] = lo
                         \/ x.ub /\ x.err = 0 /\ v[1] = hi /\ (v[2] \div 256) = (lo \div 256)
        IN (IF x.miss THEN {"miss"} ELSE {})
           \cup (IF vec = x.err THEN {} ELSE {"vec"})
           \cup (IF meta \div 16777216 = 0 THEN {} ELSE {"other"})
           \cup (IF sr = x.sr \/ ((sr ^^ x.sr) & (65535 - x.u)) = 0 THEN {} ELSE {"sr"})
           \cup (IF \A n \in DOMAIN h.po : val(n) THEN {} ELSE {"value"})
           \cup (IF Kept(x, i, k) /\ ~Elsewhere(x) /\ Others(x) THEN {} ELSE {"touched"})
      bad == {q \in (1..na) \X (1..nb) \X (1..nf) : Ok(q[1], q[2], q[3]) # {}}
  IN IF bad = {} THEN TRUE
     ELSE LET q == CHOOSE q \in bad : TRUE
              x == Run(q[1], q[2], q[3])
          IN PrintT("BAD " \o ToJson(<<t[1], 1, Ok(q[1], q[2], q[3]), d.i, d.sz, h.as[q[1]], h.bs[q[2]], h.fs[q[3]], x.sr, x.err, Cardinality(bad)>>))

Init == done = FALSE /\ \E H \in {Lines} : \E n \in DOMAIN H : t = <<n, H[n]>>
Next == done = FALSE /\ done' = TRUE /\ t' = <<t[1], 0>> /\ Judge(t[2])
View == <<t[1], done>>
=============================================================================
