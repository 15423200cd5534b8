-------------------------------- MODULE Ffi --------------------------------
(***************************************************************************)
(* The core behind its C interface, in lockstep with the Rust core.        *)
(* Each line of TRACE is a history of one machine and its twin behind the  *)
(* C functions, both started from registers m, sr; each step has what was  *)
(* observed of the Rust machine (fields as in Trace; lg: every memory      *)
(* access in order; x: the word returned) and of its twin (ffi).           *)
(* The model keeps both machines' registers; the invariant is that they    *)
(* are the same machine, and the C results are those of the Rust call.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES t, tr, j, rust, ffi, phase
vars == <<t, tr, j, rust, ffi, phase>>
Point == <<t, j, phase>>

Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} :
           \E n \in DOMAIN H : t = n /\ tr = H[n] /\ j = 1 /\ rust = H[n].m /\ ffi = H[n].m /\ phase = "run"

RECURSIVE Apply(_, _, _)
Apply(R, d, i) == IF i > Len(d) THEN R ELSE Apply([R EXCEPT ![d[i][1]] = d[i][2]], d, i + 1)
Tag(b, s) == IF b THEN {} ELSE {s}
Fill == 170
Min(a, b) == IF a < b THEN a ELSE b
(* The text buffer of len bytes, followed by guard bytes *)
BufferOk(text, len, buf) ==
  LET n == Min(Len(text), len - 1)
  IN /\ \A i \in len + 1 .. Len(buf) : buf[i] = Fill
     /\ len > 0 => /\ \A i \in 1..n : buf[i] = text[i]
                   /\ buf[n + 1] = 0
Disasm(k) == k \in {"d", "D"}
Next ==
  /\ phase = "run" /\ j <= Len(tr.s)
  /\ UNCHANGED <<t, tr>>
  /\ LET o == tr.s[j]
     IN IF o.k = "x" \/ "ffi" \notin DOMAIN o
        THEN j' = j + 1 /\ UNCHANGED <<rust, ffi, phase>>   \* a request; or a step the Rust core did not survive
        ELSE LET q == o.ffi
                 r1 == Apply(rust, o.r, 1)  r2 == Apply(ffi, q.r, 1)
                 bad == Tag(r1 = r2, "r") \cup Tag(o.sr = q.sr, "sr") \cup Tag(o.st = q.st, "st")
                        \cup Tag(q.same = 1, "views")
                        \cup Tag(o.c = q.c, "c") \cup Tag(o.v = q.v, "v") \cup Tag(o.lg = q.lg, "lg") \cup Tag(o.rs = q.rs, "rs")
                        \cup (IF Disasm(o.k) THEN Tag(o.a = q.a, "a") \cup Tag(BufferOk(o.tc, o.len, q.buf), "buf") ELSE {})
                        \cup (IF o.k \in {"w", "l", "p"} /\ o.v = 0 THEN Tag(o.x = q.x, "x") ELSE {})
             IN /\ rust' = r1 /\ ffi' = r2 /\ j' = j + 1
                /\ IF bad = {} THEN phase' = "run"
                   ELSE phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, j, bad, o.k, o.v>>))
Same == phase = "run" => rust = ffi
=============================================================================
