------------------------------- MODULE Loops -------------------------------
(***************************************************************************)
(* The run loops.  A loop is a machine whose steps are those of the single *)
(* step interpreter: it takes them until its stop condition holds, and its *)
(* result is made of theirs.  Each line of TRACE (written by the harness)  *)
(* has                                                                     *)
(*   s   the single steps of one machine, by the queueing interpreter      *)
(*       (q = 1) or the vector-returning one (q = 0): v vector, c cycles,  *)
(*       r registers, sr, st, rs, wr as in Trace, ac the accesses made     *)
(*   st  whether the machine was stopped at the beginning                  *)
(*   lp  loop calls, each made on a copy of the machine: k = "N" (cycle),  *)
(*       "U" (cycle_until_exception), "L" (loop_until_exception_stop) with *)
(*       n the cycles asked, the result, and x: the single steps after it  *)
(*   la  for a program that comes back to the same state: the steps after  *)
(*       which it is the same, and tn, z in a call: after that many turns  *)
(*       the memory gives another instruction at the place of the first    *)
(*       one, and z is the single step that executes it                    *)
(*   cs  instead of a result: many calls in a row, as the different         *)
(*       <<place in the turn before, cycles asked, result, vector, place    *)
(*       after>> that were seen                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES t, tr, l,        \* a history and one of its loop calls
          e,               \* the steps taken by the loop
          turns,           \* the turns taken besides
          total,           \* their cycles
          phase            \* "run", "end", "bad"
vars == <<t, tr, l, e, turns, total, phase>>
Point == <<t, l, e, turns, phase>>

Q == tr.lp[l]
At(i) == tr.s[i]
Init == \E H \in {ndJsonDeserialize(IOEnv.TRACE)} :
           \E n \in DOMAIN H : \E k \in DOMAIN H[n].lp :
              t = n /\ tr = H[n] /\ l = k /\ e = 0 /\ turns = 0 /\ total = 0 /\ phase = "run"

Stopped == e > 0 /\ At(e).st = 1
Raised == e > 0 /\ At(e).v # 0
Over == CASE Q.k = "N" -> total >= Q.n \/ Stopped
          [] Q.k = "U" -> total >= Q.n \/ Stopped \/ Raised
          [] OTHER -> Stopped \/ Raised
(* Where the recorded steps come back to a state in which nothing is pending, they go on for ever in the same way: any number *)
(* of turns is taken at once, and the last turn step by step                                                                  *)
La == IF "la" \in DOMAIN tr THEN tr.la ELSE <<0, 0>>
RECURSIVE SumOf(_, _, _)
SumOf(f(_), i, j) == IF i > j THEN 0 ELSE f(i) + SumOf(f, i + 1, j)
Turn == SumOf(LAMBDA i : At(i).c, La[1] + 1, La[2])
Same0(a, b) == a.r = b.r /\ a.sr = b.sr /\ a.st = b.st
Round == /\ La[1] < La[2] /\ Len(tr.s) >= La[2] + (La[2] - La[1])
         /\ Same0(At(La[1]), At(La[2])) /\ At(La[2]).st = 0
         /\ \A i \in 1..La[2] : At(i).v = 0 /\ At(i).p = 0
         /\ \A i \in 1..(La[2] - La[1]) : LET x == At(La[1] + i)
                                                y == At(La[2] + i)
                                            IN x.r = y.r /\ x.sr = y.sr /\ x.c = y.c /\ x.wr = y.wr /\ x.ac = y.ac /\ x.v = y.v
         /\ Turn > 0
Flips == "tn" \in DOMAIN Q
Leap == /\ phase = "run" /\ ~Over /\ turns = 0 /\ La[2] > 0 /\ e = La[2] /\ Q.k # "L" /\ ~Flips /\ Round
        /\ LET m == (Q.n - total - 1) \div Turn
           IN /\ m > 0
              /\ turns' = m /\ total' = total + m * Turn
        /\ UNCHANGED <<t, tr, l, e, phase>>

Step == /\ phase = "run" /\ ~Over /\ e < Len(tr.s) /\ ~ENABLED Leap /\ ~(Flips /\ e = La[2] /\ Round)
        /\ e' = e + 1 /\ total' = total + At(e + 1).c
        /\ UNCHANGED <<t, tr, l, turns, phase>>

(* The result the loop must have had *)
RECURSIVE ByteIn(_, _, _)
ByteIn(wr, a, i) == IF i > Len(wr) THEN -1
                    ELSE IF wr[i][1][1] = a[1] /\ wr[i][1][2] <= a[2] /\ a[2] < wr[i][1][2] + Len(wr[i][2])
                    THEN wr[i][2][a[2] - wr[i][1][2] + 1] ELSE ByteIn(wr, a, i + 1)
RECURSIVE LastByte(_, _)
LastByte(a, i) == IF i = 0 THEN -1
                  ELSE LET b == ByteIn(At(i).wr, a, 1) IN IF b >= 0 THEN b ELSE LastByte(a, i - 1)
Places(wr) == UNION {{<<wr[i][1][1], wr[i][1][2] + n - 1>> : n \in DOMAIN wr[i][2]} : i \in DOMAIN wr}
RECURSIVE Sum(_, _)
Sum(f(_), i) == IF i = 0 THEN 0 ELSE f(i) + Sum(f, i - 1)
Tag(b, s) == IF b THEN {} ELSE {s}
After(n) == IF n = 0 THEN [r |-> tr.r, sr |-> tr.sr, st |-> tr.st] ELSE At(n)
Same(o, n, s) == Tag(o.r = After(n).r, "r" \o s) \cup Tag(o.sr = After(n).sr, "sr" \o s) \cup Tag(o.st = After(n).st, "st" \o s)
Expect ==
  LET cyc == IF Q.k = "N" /\ Stopped THEN Q.n ELSE total
      vec == IF Q.k # "N" /\ Raised THEN At(e).v ELSE 0
  IN Tag(Q.p = 0, "pan") \cup Tag(Q.c = cyc, "c") \cup Tag(Q.v = vec, "v") \cup Same(Q, e, "")
     \cup Tag(Q.rs = Sum(LAMBDA i : At(i).rs, e) + turns * SumOf(LAMBDA i : At(i).rs, La[1] + 1, La[2]), "rs")
     \cup Tag(Q.ac = Sum(LAMBDA i : At(i).ac, e) + turns * SumOf(LAMBDA i : At(i).ac, La[1] + 1, La[2]), "ac")
     \cup Tag(Places(Q.wr) = UNION {Places(At(i).wr) : i \in 1..e} /\ \A a \in Places(Q.wr) : ByteIn(Q.wr, a, 1) = LastByte(a, e), "wr")
     \cup UNION {IF e + i > Len(tr.s) THEN {} ELSE Same(Q.x[i], e + i, "x") \cup Tag(Q.x[i].c = At(e + i).c /\ Q.x[i].v = At(e + i).v, "x") : i \in DOMAIN Q.x}
(* Many calls in a row, each from where the one before has left the machine *)
RECURSIVE Walk(_, _, _)
Walk(i, sum, n) == IF sum >= n THEN <<i, sum>>
                   ELSE LET k == IF i = La[2] THEN La[1] + 1 ELSE i + 1 IN Walk(k, sum + At(k).c, n)
Calls == IF ~Round THEN {}
         ELSE UNION {LET x == Q.cs[i]
                     IN IF x[1] = 0 \/ x[5] = 0 THEN {"lost"}
                        ELSE LET w == Walk(x[1], 0, x[2]) IN Tag(x[5] = w[1], "r") \cup Tag(x[3] = w[2], "c") \cup Tag(x[4] = 0, "v")
                     : i \in DOMAIN Q.cs}
Finish == /\ phase = "run" /\ Over
          /\ IF (IF "cs" \in DOMAIN Q THEN Calls ELSE Expect) = {} THEN phase' = "end"
             ELSE phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, l, IF "cs" \in DOMAIN Q THEN Calls ELSE Expect, Q.k, Q.n, e>>))
          /\ UNCHANGED <<t, tr, l, e, turns, total>>
(* The result where the memory changes after Q.tn turns *)
Changed ==
  /\ phase = "run" /\ ~Over /\ Flips /\ e = La[2] /\ Round
  /\ LET n == Q.tn
         z == Q.z
         all(f(_)) == SumOf(f, 1, La[1]) + n * SumOf(f, La[1] + 1, La[2])
         bad == Tag(Q.p = 0, "pan") \cup Tag(Q.c = all(LAMBDA i : At(i).c) + z.c, "c") \cup Tag(Q.v = z.v, "v")
                \cup Tag(Q.r = z.r, "r") \cup Tag(Q.sr = z.sr, "sr") \cup Tag(Q.st = z.st, "st")
                \cup Tag(Q.ac = all(LAMBDA i : At(i).ac) + z.ac, "ac") \cup Tag(Q.rs = all(LAMBDA i : At(i).rs) + z.rs, "rs")
     IN IF (z.v = 0 /\ z.st = 0) \/ bad = {} THEN phase' = "end"
        ELSE phase' = "bad" /\ PrintT("BAD " \o ToJson(<<t, l, bad, Q.k, Q.n, e>>))
  /\ UNCHANGED <<t, tr, l, e, turns, total>>
(* The recorded steps do not reach the end of the loop: it must still have been going at a bounded access count *)
Next == Step \/ Leap \/ Changed \/ Finish
=============================================================================
