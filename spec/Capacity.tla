------------------------------ MODULE Capacity ------------------------------
(***************************************************************************)
(* Numbers: what a storage of n parts of a bytes says to elements of b     *)
(* bytes, and what it does about a reservation.  CapacityModel uses it for *)
(* every number of a small machine, CapacityRows for what the real         *)
(* storages say and do close to 2^32, 2^63 and 2^64, with numbers that are *)
(* sequences of digits.                                                    *)
(***************************************************************************)
CONSTANTS Times(_, _), Plus(_, _), AtLeast(_, _), Num(_)

Zero == Num(0)
Larger(x, y) == IF AtLeast(x, y) THEN x ELSE y

\* r elements fit: as many as there is room for (room: largest size of anything in memory)
Reports(n, a, b, r, room) ==
  IF b = Zero THEN AtLeast(r, room)
  ELSE /\ AtLeast(Times(n, a), Times(r, b))
       /\ ~AtLeast(Times(n, a), Times(Plus(r, Num(1)), b))

\* enough for req elements, without a division
Holds(n, a, b, req) == AtLeast(Times(n, a), Times(req, b))

\* try_reserve: n, m: parts before and after; asked: bytes requested from the allocator last, 0 if none
Tried(n, a, b, req, ok, m, asked) ==
  IF a = Zero THEN m = n /\ asked = Zero /\ (ok <=> Holds(n, a, b, req))
  ELSE IF Holds(n, a, b, req) THEN ok /\ m = n /\ asked = Zero
  ELSE IF ok THEN Holds(m, a, b, req) /\ AtLeast(m, Times(Num(2), n)) /\ asked = Times(m, a)
  ELSE m = n

\* nothing is refused that needs much less than what is there
Refusable(n, a, b, req, there) ==
  AtLeast(Plus(Times(Num(4), Larger(Times(n, a), Times(req, b))), Times(Num(64), a)), there)

\* with_capacity
Made(a, b, req, ok, m, asked) ==
  IF a = Zero THEN asked = Zero /\ (ok <=> Holds(Zero, a, b, req))
  ELSE ok => Holds(m, a, b, req) /\ asked = Times(m, a)
=============================================================================
