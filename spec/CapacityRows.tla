---------------------------- MODULE CapacityRows ----------------------------
(***************************************************************************)
(* What the real storages said and did (TRACES: one call for each line),   *)
(* decided with Capacity.  Numbers are sequences of Len digits to the base *)
(* Base, the lowest first.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, TLC, IOUtils

Recorded == ndJsonDeserialize(IOEnv.TRACES)
Base == 10000
Len_ == 7

LNum(k) == [i \in 1..Len_ |-> IF i = 1 THEN k ELSE 0]

\* the digits of the sums s[1], s[2], …
RECURSIVE Carry(_, _, _, _)
Carry(s, i, c, d) ==
  IF i > Len_ THEN (IF Assert(c = 0, "overflow") THEN d ELSE d)
  ELSE LET x == s[i] + c IN Carry(s, i + 1, x \div Base, Append(d, x % Base))

RECURSIVE Column(_, _, _, _)
Column(x, y, k, i) == IF i > k THEN 0 ELSE (IF x[i] = 0 THEN 0 ELSE x[i] * y[k + 1 - i]) + Column(x, y, k, i + 1)

LPlus(x, y) == Carry([i \in 1..Len_ |-> x[i] + y[i]], 1, 0, <<>>)
LTimes(x, y) == Carry([k \in 1..Len_ |-> Column(x, y, k, 1)], 1, 0, <<>>)

RECURSIVE From(_, _, _)
From(x, y, i) == IF i = 0 THEN TRUE ELSE IF x[i] # y[i] THEN x[i] > y[i] ELSE From(x, y, i - 1)
LAtLeast(x, y) == From(x, y, Len_)

INSTANCE Capacity WITH Times <- LTimes, Plus <- LPlus, AtLeast <- LAtLeast, Num <- LNum

\* room: what anything in memory may have; there: what the allocator of the harness hands out
Right(r) ==
  CASE r.op = "view"  -> Reports(r.n, r.a, r.b, r.held, r.room)
    [] r.op = "fixed" -> r.st = "ok" <=> Holds(r.n, r.a, r.b, r.req)
    [] r.op = "try"   -> /\ r.st \in {"ok", "no"}
                         /\ Tried(r.n, r.a, r.b, r.req, r.st = "ok", r.m, IF r.st = "ok" THEN r.asked ELSE Zero)
                         /\ Reports(r.m, r.a, r.b, r.held, r.room)
                         /\ r.st = "no" /\ r.a # Zero => Refusable(r.n, r.a, r.b, r.req, r.there)
    [] r.op = "make"  -> /\ Made(r.a, r.b, r.req, r.st = "ok", r.m, IF r.st = "ok" THEN r.asked ELSE Zero)
                         /\ r.st = "ok" => Reports(r.m, r.a, r.b, r.held, r.room)
                         /\ r.st # "ok" /\ r.a # Zero => Refusable(Zero, r.a, r.b, r.req, r.there)

VARIABLE i
Init == i \in 1..Len(Recorded)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Examined == Right(Recorded[i]) \/ PrintT("MISMATCH " \o ToString(i))
=============================================================================
