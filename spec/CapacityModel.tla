--------------------------- MODULE CapacityModel ---------------------------
(***************************************************************************)
(* How Heap and GenericVec compute with capacities, on a machine with      *)
(* words of 0..Max: products have two words, what does not fit wraps       *)
(* around or saturates.  Checked for every pair of sizes, every capacity,  *)
(* every length and every request.                                         *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Max,    \* usize::MAX
          Room,   \* isize::MAX
          MaxSize, Least

VARIABLES a, b,   \* sizes of the items of the storage, and of the elements
          n,      \* capacity of the storage
          len,    \* length of the vector
          out     \* the last operation

vars == <<a, b, n, len, out>>

ITimes(x, y) == x * y
IPlus(x, y) == x + y
IAtLeast(x, y) == x >= y
INum(k) == k
INSTANCE Capacity WITH Times <- ITimes, Plus <- IPlus, AtLeast <- IAtLeast, Num <- INum

Words == 0..Max
Wide == (Max + 1) * (Max + 1)

Wrap(x) == x % Wide

\* raw/capacity.rs: n items of x bytes as items of y bytes
Conv(k, x, y, up) ==
  IF y = 0 THEN Max
  ELSE LET size == k * x
           s == IF up THEN Wrap(Wrap(size + y) + Wide - 1) ELSE size
           q == s \div y
       IN IF q > Max THEN Max ELSE q

\* Storage::capacity, GenericVec::capacity
Capacity_(k) == Conv(k, a, b, FALSE)
VecCapacity(k) == IF b = 0 THEN Room ELSE Capacity_(k)

Same(ok) == [ok |-> ok, m |-> n, asked |-> 0]

\* Heap::reserve_slow
Slow(need, granted) ==
  IF 2 * n > Max THEN [ok |-> FALSE, m |-> -1, asked |-> 0]
  ELSE LET m == Larger(Larger(need, 2 * n), Least) IN
       IF m * a > Room THEN Same(FALSE)
       ELSE IF granted THEN [ok |-> TRUE, m |-> m, asked |-> m * a]
       ELSE [Same(FALSE) EXCEPT !.asked = m * a]

\* Storage::try_reserve
Try(req, granted) ==
  IF a = 0 THEN Same(req <= Capacity_(n))
  ELSE LET need == Conv(req, b, a, TRUE) IN
       IF n < need THEN Slow(need, granted) ELSE Same(TRUE)

\* GenericVec::try_reserve
VecTry(more, granted) ==
  IF VecCapacity(n) - len >= more THEN Same(TRUE)
  ELSE IF len + more > Max \/ b = 0 THEN Same(FALSE)
  ELSE Try(len + more, granted)

Init ==
  /\ a \in 0..MaxSize /\ b \in 0..MaxSize
  /\ n = (IF a = 0 THEN Max ELSE 0)
  /\ len = 0
  /\ out = [op |-> "new", req |-> 0, n |-> n, r |-> [ok |-> TRUE, m |-> n, asked |-> 0]]

Op(op, req, r) ==
  /\ out' = [op |-> op, req |-> req, n |-> n, r |-> r]
  /\ n' = IF r.m < 0 THEN n ELSE r.m
  /\ UNCHANGED <<a, b>>

Next ==
  \/ \E req \in Words, g \in BOOLEAN : Op("try", req, Try(req, g)) /\ UNCHANGED len
  \/ \E more \in Words, g \in BOOLEAN : Op("vec", more, VecTry(more, g)) /\ UNCHANGED len
  \/ \E l \in 0..VecCapacity(n) : len' = l /\ Op("len", l, Same(TRUE))

Spec == Init /\ [][Next]_vars

\* no overflow, and nothing that panics
Sane == out.r.m >= 0 /\ (a # 0 => n * a <= Room) /\ len <= VecCapacity(n)
Faithful == Reports(n, a, b, Capacity_(n), Room) \/ a = 0
Empty == a = 0 => Capacity_(n) = (IF b = 0 THEN Max ELSE 0)
Reserved ==
  CASE out.op = "try" -> Tried(out.n, a, b, out.req, out.r.ok, n, IF out.r.ok THEN out.r.asked ELSE 0)
    [] out.op = "vec" -> /\ out.r.ok => VecCapacity(n) - len >= out.req
                         /\ ~out.r.ok => n = out.n
                         /\ out.req > Max - len => ~out.r.ok
    [] OTHER -> TRUE
\* what is there is enough for every request that is granted without asking
NoFalseAlarm == out.op = "try" /\ ~out.r.ok /\ out.r.asked = 0 /\ a # 0 =>
  \/ out.req * b > Room - a
  \/ 2 * out.n * a > Room
  \/ Least * a > Room

=============================================================================
