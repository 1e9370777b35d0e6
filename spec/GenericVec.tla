----------------------------- MODULE GenericVec -----------------------------
(***************************************************************************)
(* The normative specification of generic-vec: what every public operation *)
(* may do to a vector, to what borrows it, to a second vector, to the      *)
(* caller and to the elements involved.                                    *)
(*                                                                         *)
(* A state is a record (see Blank).  An operation is a record              *)
(*   [op, a, f, fk, nw, ...]                                               *)
(* where op is its name, a its integer arguments, f/fk an injected fault   *)
(* ("p": the fk-th callback panics, "c": the fk-th clone, "d": the fk-th   *)
(* destructor, "a": the fk-th allocation fails) and nw the identities of   *)
(* the elements that its arguments and callbacks create, in order.         *)
(*                                                                         *)
(* Outcomes(s, e) is the set of everything that operation e may do in      *)
(* state s.  Model checking explores it, trace validation compares what    *)
(* the implementation did with it.                                         *)
(*                                                                         *)
(* An element is identified by id = serial * 8 + key.  The key is its      *)
(* value for predicates and comparisons, the serial is unique.  In an      *)
(* outcome an element is given by its id, or by the negated id of the      *)
(* element that it is a fresh clone of.  Elements of zero-sized types all  *)
(* have id 0.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

ANY == -99
\* an element that is not determined
Unknown == -2000000000

\* What stands for usize::MAX, and what the harness reports for numbers above 10^9
MaxUsize  == 2000000000
Unlimited == 1000000000

\* Arguments below zero stand for huge numbers: -1 for usize::MAX, -2 for the number before it, ...,
\* -64 for 2^63, -65 for 2^62, ...: see big() in the harness.
Val(x) ==
  IF x >= 0 THEN x ELSE IF x = -64 THEN 1900000000 ELSE IF x < -64 THEN 900000000 ELSE MaxUsize + x + 1

Key(x) == x % 8
WithKey(x, k) == (x \div 8) * 8 + k

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the first n, and all but the first n elements
Take(q, n) == SubSeq(q, 1, n)
Skip(q, n) == SubSeq(q, n + 1, Len(q))
Last_(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
ButLast(q, n) == SubSeq(q, 1, Len(q) - n)
Times(x, n) == [i \in 1..n |-> x]
Negs(q) == [i \in 1..Len(q) |-> -q[i]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* all subsequences
Subseqs(q) ==
  {LET idx == SetToSortSeq(I, <) IN [j \in 1..Len(idx) |-> q[idx[j]]] : I \in SUBSET (1..Len(q))}

(***************************************************************************)
(* States                                                                  *)
(***************************************************************************)
Zsts == {"zst", "zal", "zcp"}
IsZst(s) == s.k \in Zsts
IsCopy(s) == s.k \in {"copy", "zcp"}

NoPeer == [on |-> FALSE, gr |-> "fixed", it |-> <<>>, cap |-> -1]

\* What borrows (or consumed) the vector.
\*   cursor, drain, dfilter, splice, into: the elements are left, mid (not
\*     visited), right, with gf and gb unfilled slots around mid
\*   spare: left are the vector's elements, mid those of the view
NoView == [t |-> "none", left |-> <<>>, gf |-> 0, mid |-> <<>>, gb |-> 0, right |-> <<>>,
           a |-> <<>>, calls |-> 0, pan |-> FALSE, grew |-> FALSE, cap |-> 0]

\* k  : kind of the elements: own, copy, zst (zero-sized), zcp (both)
\* h  : the storage
\* gr : how it grows: fixed, heap, user, zst
\* live, it, cap : the vector
\* st : copies of former elements right behind the vector (initialised storages)
\* lk : something was leaked
\* hw : number of slots of the storage that were ever used
Blank(k, h) ==
  [k |-> k, h |-> h, gr |-> "fixed", live |-> FALSE, it |-> <<>>, cap |-> -1,
   b |-> NoPeer, v |-> NoView, st |-> <<>>, lk |-> FALSE, hw |-> 0, made |-> FALSE]

UserLimit == 9

\* Can a storage that grows like gr hold n elements?
CanGrow(gr, cap, n) ==
  CASE gr = "zst"   -> n < Val(-64)
    [] n <= cap     -> TRUE
    [] gr = "heap"  -> n < 100000000
    [] gr = "user"  -> n <= UserLimit
    [] OTHER        -> FALSE

CanHold(s, n) == CanGrow(s.gr, s.cap, n)

Open(s) == s.v.t # "none"

\* every element that the vector, its views and the peer own
Owned(s) == s.it \o s.v.left \o s.v.mid \o s.v.right \o s.b.it

(***************************************************************************)
(* Outcomes                                                                *)
(***************************************************************************)
\* st   : how the operation ends: ok, panic, inj (the injected panic comes out), err, none, skip
\* it   : contents of the vector
\* perm : the contents are not determined: any of the elements involved, in any order
\* ret  : elements handed to the caller (rown: they are the caller's)
\* rf   : position of the element that the returned reference designates (-1: none)
\* n    : returned number
\* nn   : how many elements were created (-1: not determined)
\* kept : the created elements stay with the caller
\* need : capacity required
\* al   : use of the heap: fit (only if need exceeds the capacity), grow (if it can grow), any
\* cap  : what happens to the capacity: "norm", "free" (it may grow), "any"
\* cl   : trace of the callbacks; clp: only a prefix of it may have happened
\* clz  : a final 0 is optional
\* bn   : number of clones (-1: not determined)
\* lost : elements may be lost (only if a destructor panics, or by leaking)
\* ext  : number of slots used on the way
Out(s) ==
  [st |-> "ok", live |-> s.live, it |-> s.it, perm |-> FALSE, ret |-> <<>>, rown |-> TRUE, rf |-> -1, n |-> ANY,
   nn |-> 0, kept |-> FALSE, need |-> 0, al |-> "fit", cap |-> "norm", cl |-> <<>>, clp |-> FALSE,
   clz |-> FALSE, bn |-> 0, lost |-> FALSE, ext |-> 0, v |-> s.v, b |-> s.b, bneed |-> 0, vw |-> <<>>, vwc |-> "none",
   stale |-> "unknown", lk |-> s.lk]

\* number of clones that make n elements (only counted if they report it)
Clones(s, n) == IF IsCopy(s) THEN 0 ELSE n

FaultAt(s, e, f, n) == e.f = f /\ e.fk >= 1 /\ e.fk <= n
CloneFault(s, e, n) == ~IsCopy(s) /\ FaultAt(s, e, "c", n)
CallFault(e, n) == e.f = "p" /\ e.fk >= 1 /\ e.fk <= n
DropFault(s, e, n) == ~IsCopy(s) /\ FaultAt(s, e, "d", n)

\* The j-th created element (an id that matches nothing if there is none)
New(e, j) == IF j <= Len(e.nw) THEN e.nw[j] ELSE -5
NewSeq(e, n) == [j \in 1..n |-> New(e, j)]

Ok(s, it) == [Out(s) EXCEPT !.it = it, !.ext = Len(it)]
Fail(s) == [Out(s) EXCEPT !.st = "panic"]
Skipped(s) == [Out(s) EXCEPT !.st = "skip"]

\* The destructor of one of the dropped elements panics: the others are dropped or lost
InjDrop(s, e, o, drops) ==
  IF DropFault(s, e, drops) THEN {[o EXCEPT !.st = "inj", !.lost = TRUE, !.ret = <<>>]} ELSE {o}

InsertSeq(q, i, x) == Take(q, i) \o x \o Skip(q, i)     \* behind the first i
RemoveSeq(q, i, n) == Take(q, i) \o Skip(q, i + n)       \* i elements, then n are removed

(***************************************************************************)
(* Single elements, C01                                                    *)
(***************************************************************************)
PlaceAt(s, e, i, x) ==
  {[Ok(s, InsertSeq(s.it, i, <<x>>)) EXCEPT !.nn = 1, !.rf = i, !.need = Len(s.it) + 1,
                                           !.stale = IF i = Len(s.it) THEN "keep" ELSE "unknown"]}

\* the value is dropped
Refused(s) == {[Fail(s) EXCEPT !.nn = 1]}
\* the value is handed back
Returned(s, e) == {[Out(s) EXCEPT !.st = "err", !.nn = 1, !.ret = <<New(e, 1)>>]}

Push(s, e) == IF CanHold(s, Len(s.it) + 1) THEN PlaceAt(s, e, Len(s.it), New(e, 1)) ELSE Refused(s)
PushU(s, e) == IF Len(s.it) < s.cap THEN PlaceAt(s, e, Len(s.it), New(e, 1)) ELSE {Skipped(s)}
TryPush(s, e) == IF Len(s.it) < s.cap THEN PlaceAt(s, e, Len(s.it), New(e, 1)) ELSE Returned(s, e)

Insert(s, e) ==
  LET i == Val(e.a[1]) IN
  IF i <= Len(s.it) /\ CanHold(s, Len(s.it) + 1) THEN PlaceAt(s, e, i, New(e, 1)) ELSE Refused(s)
InsertU(s, e) ==
  LET i == Val(e.a[1]) IN
  IF i <= Len(s.it) /\ Len(s.it) < s.cap THEN PlaceAt(s, e, i, New(e, 1)) ELSE {Skipped(s)}
TryInsert(s, e) ==
  LET i == Val(e.a[1]) IN
  IF i <= Len(s.it) /\ Len(s.it) < s.cap THEN PlaceAt(s, e, i, New(e, 1)) ELSE Returned(s, e)

TakeAt(s, i, other) ==
  IF i >= 0 /\ i < Len(s.it)
  THEN {[Ok(s, RemoveSeq(s.it, i, 1)) EXCEPT !.ret = <<s.it[i + 1]>>,
                                            !.stale = IF i = Len(s.it) - 1 THEN "keep" ELSE "unknown"]}
  ELSE {[Out(s) EXCEPT !.st = other]}

Pop(s, other) == TakeAt(s, Len(s.it) - 1, other)
RemoveOne(s, e, other) == TakeAt(s, Val(e.a[1]), other)
SwapRemove(s, e, other) ==
  LET i == Val(e.a[1])  n == Len(s.it) IN
  IF i < n
  THEN {[Ok(s, Take([s.it EXCEPT ![i + 1] = s.it[n]], n - 1)) EXCEPT !.ret = <<s.it[i + 1]>>]}
  ELSE {[Out(s) EXCEPT !.st = other]}

TruncateTo(s, e, n, extra) ==
  IF n < Len(s.it)
  THEN InjDrop(s, e, [Ok(s, Take(s.it, n)) EXCEPT !.stale = "keep"], Len(s.it) - n + extra)
  ELSE InjDrop(s, e, [Out(s) EXCEPT !.stale = "keep"], extra)

(***************************************************************************)
(* Capacity, C07 C08                                                       *)
(***************************************************************************)
Reserve(s, e) ==
  LET need == Len(s.it) + Val(e.a[1]) IN
  IF CanHold(s, need) THEN {[Out(s) EXCEPT !.need = need, !.stale = "keep"]} ELSE {Fail(s)}

TryReserve(s, e) ==
  LET need == Len(s.it) + Val(e.a[1]) IN
  IF ~CanHold(s, need) \/ (need > s.cap /\ s.gr = "heap" /\ e.f = "a" /\ e.fk = 1)
  THEN {[Out(s) EXCEPT !.n = 0, !.stale = "keep", !.al = "try"]}
  ELSE {[Out(s) EXCEPT !.n = 1, !.need = need, !.stale = "keep"]}

\* Storage::reserve and Storage::try_reserve of the storage itself: the argument is a capacity
RawHolds(s, need) == s.gr = "zst" \/ CanHold(s, need)
RawReserve(s, e) ==
  LET need == Val(e.a[1]) IN
  IF RawHolds(s, need) THEN {[Out(s) EXCEPT !.need = need, !.stale = "keep"]} ELSE {Fail(s)}

RawTryReserve(s, e) ==
  LET need == Val(e.a[1]) IN
  IF ~RawHolds(s, need) \/ (need > s.cap /\ s.gr = "heap" /\ e.f = "a" /\ e.fk = 1)
  THEN {[Out(s) EXCEPT !.n = 0, !.stale = "keep", !.al = "try"]}
  ELSE {[Out(s) EXCEPT !.n = 1, !.need = need, !.stale = "keep"]}

(***************************************************************************)
(* Bulk additions, C17                                                     *)
(***************************************************************************)
\* n copies of the value x behind q: x itself and clones of it, or only clones
Copies(s, q, x, n) ==
  {q \o Times(-x, n - 1) \o <<x>>, q \o <<x>> \o Times(-x, n - 1), q \o Times(-x, n)}

GrowBy(s, e, n, x) ==
  LET need == Len(s.it) + n IN
  IF n = 0 THEN InjDrop(s, e, [Out(s) EXCEPT !.nn = 1, !.stale = "keep"], 1)
  ELSE IF ~CanHold(s, need) THEN Refused(s)
  ELSE IF CloneFault(s, e, n - 1)
  THEN {[Out(s) EXCEPT !.st = "inj", !.nn = 1, !.bn = -1, !.cap = "free", !.ext = need]}
  ELSE {[Ok(s, q) EXCEPT !.nn = 1, !.need = need, !.stale = "keep",
                         !.bn = Clones(s, IF Last(q) = x \/ q[Len(s.it) + 1] = x THEN n - 1 ELSE n)] :
        q \in Copies(s, s.it, x, n)}

Grow(s, e) == GrowBy(s, e, Val(e.a[1]), New(e, 1))
Resize(s, e) ==
  LET n == Val(e.a[1]) IN
  IF n > Len(s.it) THEN GrowBy(s, e, n - Len(s.it), New(e, 1))
  ELSE {[o EXCEPT !.nn = 1] : o \in TruncateTo(s, e, n, 1)}

GrowWithBy(s, e, n) ==
  LET need == Len(s.it) + n IN
  IF ~CanHold(s, need) THEN {Fail(s)}
  ELSE IF CallFault(e, n)
  THEN {[Out(s) EXCEPT !.st = "inj", !.nn = e.fk - 1, !.cl = Times(1, e.fk), !.cap = "free", !.ext = need]}
  ELSE {[Ok(s, s.it \o NewSeq(e, n)) EXCEPT !.nn = n, !.need = need, !.cl = Times(1, n), !.stale = "keep"]}

GrowWith(s, e) == GrowWithBy(s, e, Val(e.a[1]))
ResizeWith(s, e) ==
  LET n == Val(e.a[1]) IN
  IF n > Len(s.it) THEN GrowWithBy(s, e, n - Len(s.it)) ELSE TruncateTo(s, e, n, 0)

\* How far off the size hint of a source is, see hint() in the harness
HintExact(m) == m \in {0, 4, 1}

\* Pulls m items from a source that creates them, and puts them between left and right.
\* The items arrive one by one: if something panics, some of the first ones may have been kept.
PullFailed(s, e, left, right, m, st, mades) ==
  {[Out(s) EXCEPT !.st = st, !.it = left \o q[2] \o right, !.nn = q[1], !.cl = Append(Times(1, m), 0), !.clp = TRUE,
                  !.cap = "free", !.al = "grow", !.ext = Max2(Len(left) + m + Len(right), Len(s.it))] :
   q \in {r \in UNION {{<<made, p>> : p \in Prefixes(NewSeq(e, made))} : made \in mades} :
            CanHold(s, Len(left) + Len(r[2]) + Len(right))}}
\* How many of m items the source gave before the vector was full: any number; in a recorded event, the number that was recorded
\* (a long random walk is generated for three of them)
Given(e, m) ==
  IF "st" \in DOMAIN e THEN (IF Len(e.nw) <= m THEN {Len(e.nw)} ELSE 0..m)
  ELSE IF m <= 8 THEN 0..m ELSE {0, m \div 2, m}
Pull(s, e, left, right, m, exact) ==
  LET total == Len(left) + m + Len(right)
      some(st, made) == PullFailed(s, e, left, right, m, st, {made})
  IN (IF CallFault(e, m + 1) THEN some("inj", e.fk - 1) ELSE {})
     \cup
     (IF ~CanHold(s, total) THEN UNION {some("panic", j) : j \in Given(e, m)} ELSE {})
     \cup
     (IF CanHold(s, total) /\ ~CallFault(e, m)
      THEN {[Ok(s, left \o NewSeq(e, m) \o right) EXCEPT
               !.nn = m, !.need = total, !.cl = Append(Times(1, m), 0), !.clz = TRUE,
               !.cap = IF exact THEN "norm" ELSE "free", !.al = IF exact THEN "fit" ELSE "grow",
               !.stale = IF right = <<>> THEN "keep" ELSE "unknown"]}
      ELSE {})

Extend(s, e) == Pull(s, e, s.it, <<>>, Len(e.a) - 1, HintExact(e.a[1]))

\* The items are clones of elements that the caller keeps
ExtendRef(s, e) ==
  LET m == Len(e.a) - 1
      src == NewSeq(e, m)
      total == Len(s.it) + m
      some(st, made) ==
        {[Out(s) EXCEPT !.st = st, !.it = s.it \o Negs(q), !.nn = m, !.kept = TRUE, !.bn = -1,
                        !.cl = Append(Times(1, m), 0), !.clp = TRUE, !.cap = "free", !.al = "grow", !.ext = total] :
         q \in {p \in Prefixes(Take(src, made)) : CanHold(s, Len(s.it) + Len(p))}}
  IN (IF CallFault(e, m + 1) THEN some("inj", e.fk - 1) ELSE {})
     \cup
     (IF CloneFault(s, e, m) THEN some("inj", e.fk - 1) ELSE {})
     \cup
     (IF ~CanHold(s, total) THEN some("panic", m) ELSE {})
     \cup
     (IF CanHold(s, total) /\ ~CallFault(e, m) /\ ~CloneFault(s, e, m)
      THEN {[Ok(s, s.it \o Negs(src)) EXCEPT
               !.nn = m, !.kept = TRUE, !.bn = Clones(s, m), !.need = total,
               !.cl = Append(Times(1, m), 0), !.clz = TRUE, !.stale = "keep",
               !.cap = IF HintExact(e.a[1]) THEN "norm" ELSE "free", !.al = IF HintExact(e.a[1]) THEN "fit" ELSE "grow"]}
      ELSE {})

ExtendFromSlice(s, e) ==
  LET m == Len(e.a)  total == Len(s.it) + m IN
  IF ~CanHold(s, total) THEN {[Fail(s) EXCEPT !.nn = m, !.kept = TRUE]}
  ELSE IF CloneFault(s, e, m)
  THEN {[Out(s) EXCEPT !.st = "inj", !.nn = m, !.kept = TRUE, !.bn = -1, !.cap = "free", !.ext = total]}
  ELSE {[Ok(s, s.it \o Negs(NewSeq(e, m))) EXCEPT !.nn = m, !.kept = TRUE, !.bn = Clones(s, m), !.need = total,
                                                  !.stale = "keep"]}

\* moves the elements
ExtendFromSliceU(s, e) ==
  LET m == Len(e.a) IN
  IF Len(s.it) + m > s.cap THEN {Skipped(s)}
  ELSE {[Ok(s, s.it \o NewSeq(e, m)) EXCEPT !.nn = m, !.need = Len(s.it) + m, !.stale = "keep"]}

CloneFrom(s, e) ==
  LET m == Len(e.a)
      base == [Out(s) EXCEPT !.nn = m, !.kept = TRUE]
      unclear(st) == [base EXCEPT !.st = st, !.perm = TRUE, !.bn = -1, !.cap = "free", !.ext = Max2(m, Len(s.it))]
  IN
  (IF CloneFault(s, e, m) THEN {unclear("inj")} ELSE {})
  \cup
  (IF ~CanHold(s, m) THEN {unclear("panic")} ELSE {})
  \cup
  (IF DropFault(s, e, Len(s.it)) THEN {[unclear("inj") EXCEPT !.lost = TRUE]} ELSE {})
  \cup
  (IF CanHold(s, m) /\ ~CloneFault(s, e, m) /\ ~DropFault(s, e, Len(s.it))
   THEN {[base EXCEPT !.it = Negs(NewSeq(e, m)), !.bn = Clones(s, m), !.need = m, !.ext = m]}
   ELSE {})

(***************************************************************************)
(* Predicates, C13 C16 C28                                                 *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(mask, i) == (mask \div Pow2(i)) % 2 = 1

\* the predicate (mode, mask) about x at its n-th call (from 0)
Holds(mode, mask, x, n) == Bit(mask, IF mode % 2 = 0 THEN Key(x) ELSE n % 30)
\* x after the call
After(s, mode, x) == IF mode >= 2 /\ ~IsZst(s) THEN WithKey(x, (Key(x) + 1) % 8) ELSE x

\* the relation (mode, mask) between x and y at its n-th call
Related(mode, mask, x, y, n) ==
  LET i == Key(x)  j == Key(y) IN
  CASE mode = 0 -> i = j
    [] mode = 1 -> Bit(mask, n % 30)
    [] mode = 2 -> i > j
    [] mode = 3 -> i = j + 1
    [] OTHER    -> i \div 2 = j \div 2

\* Visits the elements of q in order, from call number n on.  The result is
\* [no: those for which the predicate is false, yes: those for which it is true, cl: the trace]
RECURSIVE Visit(_, _, _, _, _)
Visit(s, q, mode, mask, n) ==
  IF q = <<>> THEN [no |-> <<>>, yes |-> <<>>, cl |-> <<>>]
  ELSE LET x == q[1]
           y == After(s, mode, x)
           r == Visit(s, Tail(q), mode, mask, n + 1)
           h == Holds(mode, mask, x, n)
       IN [no |-> IF h THEN r.no ELSE <<y>> \o r.no,
           yes |-> IF h THEN <<y>> \o r.yes ELSE r.yes,
           cl |-> <<x>> \o r.cl]

\* how many elements of q are visited until the k-th one for which the predicate is true
RECURSIVE VisitedFor(_, _, _, _, _, _)
VisitedFor(s, q, mode, mask, n, k) ==
  IF k = 0 THEN 0
  ELSE IF q = <<>> THEN 0
  ELSE 1 + VisitedFor(s, Tail(q), mode, mask, n + 1, IF Holds(mode, mask, q[1], n) THEN k - 1 ELSE k)

Retain(s, e) ==
  LET mode == e.a[1]  mask == e.a[2]
      all == Visit(s, s.it, mode, mask, 0)
      n == Len(s.it)
      \* the first j elements were visited
      part(j) == Visit(s, Take(s.it, j), mode, mask, 0)
      upto(j, st, calls) ==
        [Out(s) EXCEPT !.st = st, !.it = part(j).yes \o Skip(s.it, j), !.cl = Take(all.cl, calls)]
  IN
  IF CallFault(e, n) THEN {upto(e.fk - 1, "inj", e.fk)}
  ELSE IF DropFault(s, e, Len(all.no))
  THEN \* the visits may stop at the element whose destructor panics, or go on
       LET j == CHOOSE j \in 1..n : Len(part(j).no) = e.fk /\ (j = 1 \/ Len(part(j - 1).no) < e.fk) IN
       {[upto(j, "inj", j) EXCEPT !.lost = TRUE], [upto(n, "inj", n) EXCEPT !.lost = TRUE]}
  ELSE {upto(n, "ok", n)}

\* kept: what was kept so far; rest: not visited yet
RECURSIVE Dedups(_, _, _, _, _)
Dedups(kept, rest, mode, mask, n) ==
  IF rest = <<>> THEN [it |-> kept, cl |-> <<>>]
  ELSE LET x == rest[1]
           y == kept[Len(kept)]
           r == Dedups(IF Related(mode, mask, x, y, n) THEN kept ELSE Append(kept, x), Tail(rest), mode, mask, n + 1)
       IN [it |-> r.it, cl |-> <<x, y>> \o r.cl]

\* perCall: how many callbacks each question takes
Dedup(s, e, mode, mask, perCall, traced) ==
  LET r == IF s.it = <<>> THEN [it |-> <<>>, cl |-> <<>>] ELSE Dedups(<<s.it[1]>>, Tail(s.it), mode, mask, 0)
      calls == (Len(r.cl) \div 2) * perCall
      cl == IF traced THEN r.cl ELSE <<ANY>>
  IN
  IF CallFault(e, calls)
  THEN {[Out(s) EXCEPT !.st = "inj", !.perm = TRUE, !.cl = cl, !.clp = TRUE]}
  ELSE InjDrop(s, e, [Ok(s, r.it) EXCEPT !.cl = cl], Len(s.it) - Len(r.it))

(***************************************************************************)
(* Two vectors, C18                                                        *)
(***************************************************************************)
InitPeer(s, e) ==
  LET keys == SubSeq(e.a, 3, Len(e.a))
      n == Len(keys)
      gr == IF IsZst(s) THEN "zst" ELSE IF e.a[1] = 1 THEN "heap" ELSE "fixed"
  IN {[Out(s) EXCEPT !.nn = n, !.al = "any", !.stale = "keep", !.bneed = Max2(n, e.a[2]),
                     !.b = [on |-> TRUE, gr |-> gr, it |-> NewSeq(e, n),
                            cap |-> IF IsZst(s) THEN Unlimited ELSE e.a[2]]]}
     \cup (IF e.a[1] = 1 THEN {Skipped([s EXCEPT !.b = NoPeer])} ELSE {})

DropPeer(s, e) ==
  {[o EXCEPT !.b = NoPeer, !.al = "any"] : o \in InjDrop(s, e, Out(s), Len(s.b.it))}

Append_(s, e) ==
  LET need == Len(s.it) + Len(s.b.it) IN
  IF ~s.b.on THEN {Skipped(s)}
  ELSE IF ~CanHold(s, need) THEN {Fail(s)}
  ELSE {[Ok(s, s.it \o s.b.it) EXCEPT !.need = need, !.b.it = <<>>, !.stale = "keep"]}

\* moves everything from position i on to the peer
SplitInto(s, e, i) ==
  IF ~s.b.on THEN {Skipped(s)}
  ELSE IF i > Len(s.it) THEN {Fail(s)}
  ELSE LET need == Len(s.b.it) + Len(s.it) - i IN
       IF ~CanGrow(s.b.gr, s.b.cap, need) THEN {Fail(s)}
       ELSE {[Ok(s, Take(s.it, i)) EXCEPT !.b.it = s.b.it \o Skip(s.it, i), !.bneed = need,
                                         !.al = IF need > s.b.cap THEN "any" ELSE "fit"]}

\* the capacity of the vector that split_off and convert create
\* 0: Heap, 1, 2, 4: arrays, 3: a boxed array, 5: a heap of other items, 6: a user's storage, 7, 8: initialised arrays,
\* 9: ZeroSized
Targets(s) == 0..5 \cup (IF IsZst(s) THEN {9} ELSE {6}) \cup (IF s.k = "copy" THEN {7, 8} ELSE {})
TargetCap(s, t) ==
  IF IsZst(s) THEN Unlimited
  ELSE CASE t \in {0, 5} -> 99999999 [] t \in {1, 7} -> 4 [] t \in {2, 8} -> 2 [] t = 3 -> 20 [] t = 4 -> 0 [] t = 6 -> 9
         [] OTHER -> -1
\* the capacity that the new vector reports
TargetNum(s, t, n) == IF IsZst(s) \/ t \in {1, 2, 3, 4, 7, 8} THEN TargetCap(s, t) ELSE -n - 1000

SplitOff(s, e) ==
  LET i == Val(e.a[1])  t == e.a[2]  tail == Skip(s.it, Min2(i, Len(s.it)))
      skip == IF t \in {0, 3, 5} THEN {Skipped(s)} ELSE {}
  IN
  IF t \notin Targets(s) THEN {Skipped(s)}
  ELSE IF i > Len(s.it) \/ Len(tail) > TargetCap(s, t) THEN {Fail(s)} \cup skip
  ELSE {[Ok(s, Take(s.it, i)) EXCEPT !.ret = tail, !.al = "any", !.n = TargetNum(s, t, Len(tail))]} \cup skip

Convert(s, e) ==
  LET t == e.a[1]  skip == IF t \in {0, 3, 5} THEN {Skipped(s)} ELSE {} IN
  IF t \notin Targets(s) THEN {Skipped(s)}
  ELSE IF Len(s.it) > TargetCap(s, t)
  THEN {[Fail(s) EXCEPT !.live = FALSE, !.it = <<>>, !.al = "any"]} \cup skip
  ELSE {[Out(s) EXCEPT !.live = FALSE, !.it = <<>>, !.ret = s.it, !.al = "any", !.n = TargetNum(s, t, Len(s.it))]} \cup skip

(***************************************************************************)
(* Comparisons, C24                                                        *)
(***************************************************************************)
Keys(q) == [i \in 1..Len(q) |-> Key(q[i])]
Bool(b) == IF b THEN 1 ELSE 0

RECURSIVE Lex(_, _)
Lex(p, q) ==
  CASE p = <<>> /\ q = <<>> -> 0
    [] p = <<>> -> -1
    [] q = <<>> -> 1
    [] p[1] < q[1] -> -1
    [] p[1] > q[1] -> 1
    [] OTHER -> Lex(Tail(p), Tail(q))

Compare(s, e) ==
  LET p == Keys(s.it)
      q == IF IsZst(s) THEN Times(0, Len(e.a)) ELSE e.a
      c == Lex(p, q)
  IN {[Out(s) EXCEPT !.stale = "keep", !.vwc = "exact", !.al = "any",
         !.vw = <<Bool(p = q), Bool(p # q), c, Bool(c = -1), Bool(c # -1), Bool(p = q), Bool(p = q), Bool(p = q),
                \* formatted in a way that only shows the first character
                Bool(p = q), Bool(Len(p) = Len(q))>>]}

\* with elements that are not equal to, nor comparable with anything, not even themselves: those with key u
RECURSIVE PartialLex(_, _, _)
PartialLex(p, q, u) ==
  CASE p = <<>> /\ q = <<>> -> 0
    [] p = <<>> -> -1
    [] q = <<>> -> 1
    [] p[1] = u \/ q[1] = u -> 2
    [] p[1] < q[1] -> -1
    [] p[1] > q[1] -> 1
    [] OTHER -> PartialLex(Tail(p), Tail(q), u)

ComparePartial(s, e) ==
  LET p == Keys(s.it)  u == e.a[1]
      q == IF IsZst(s) THEN Times(0, Len(e.a) - 1) ELSE Tail(e.a)
      c == PartialLex(p, q, u)
      eq == p = q /\ \A i \in 1..Len(p) : p[i] # u
      self == \A i \in 1..Len(p) : p[i] # u
  IN {[Out(s) EXCEPT !.stale = "keep", !.vwc = "exact", !.al = "any",
         !.vw = <<Bool(eq), Bool(~eq), c, Bool(c = -1), Bool(c \in {0, 1}),
                  Bool(self), Bool(~self), IF self THEN 0 ELSE 2, Bool(self), Bool(self)>>]}

ComparePeer(s, e) ==
  LET p == Keys(s.it)  q == Keys(s.b.it)  c == Lex(p, q)  d == Bool(p = q) IN
  IF ~s.b.on THEN {Skipped(s)}
  ELSE {[Out(s) EXCEPT !.stale = "keep", !.vwc = "exact", !.al = "any", !.vw = <<d, d, c, -c, d, d>>]}

\* with another vector of the same type, which may have no room for the keys
CompareSame(s, e) ==
  LET p == Keys(s.it)
      q == IF IsZst(s) THEN Times(0, Len(e.a)) ELSE e.a
      c == Lex(p, q)  d == Bool(p = q)
  IN {[Skipped(s) EXCEPT !.stale = "keep", !.al = "any"],
      [Out(s) EXCEPT !.stale = "keep", !.vwc = "exact", !.al = "any", !.vw = <<c, -c, c, d, d, Bool(c >= 0)>>]}

\* the vector as seen through each of its views
Views(s) ==
  {[Out(s) EXCEPT !.stale = "keep", !.vwc = "exact", !.al = "any", !.vw = FlattenSeq(Times(s.it, 15))]}

SetAt(s, e) ==
  LET i == Val(e.a[1]) IN
  IF i < Len(s.it)
  THEN {[Ok(s, IF IsZst(s) THEN s.it ELSE [s.it EXCEPT ![i + 1] = WithKey(@, e.a[3])]) EXCEPT !.stale = "keep"]}
  ELSE {Fail(s)}

Index(s, e) ==
  LET i == Val(e.a[1]) IN
  IF i < Len(s.it) THEN {[Out(s) EXCEPT !.n = s.it[i + 1], !.stale = "keep"]} ELSE {Fail(s)}

(***************************************************************************)
(* Arrays, C19                                                             *)
(***************************************************************************)
PlaceArray(s, e, i, m) ==
  {[Ok(s, InsertSeq(s.it, i, NewSeq(e, m))) EXCEPT !.nn = m, !.rf = IF m = 0 THEN -2 ELSE i, !.need = Len(s.it) + m]}
\* refused: dropped, or handed back
NoArray(s, e, m, st) ==
  {[Out(s) EXCEPT !.st = st, !.nn = m, !.ret = IF st = "err" THEN NewSeq(e, m) ELSE <<>>]}

PushArray(s, e, i, m) ==
  IF i <= Len(s.it) /\ CanHold(s, Len(s.it) + m) THEN PlaceArray(s, e, i, m) ELSE NoArray(s, e, m, "panic")
PushArrayU(s, e, i, m) ==
  IF i <= Len(s.it) /\ Len(s.it) + m <= s.cap THEN PlaceArray(s, e, i, m) ELSE {Skipped(s)}
TryPushArray(s, e, i, m) ==
  IF i <= Len(s.it) /\ Len(s.it) + m <= s.cap THEN PlaceArray(s, e, i, m) ELSE NoArray(s, e, m, "err")

TakeArray(s, i, m, other) ==
  IF i >= 0 /\ i + m <= Len(s.it)
  THEN {[Ok(s, RemoveSeq(s.it, i, m)) EXCEPT !.ret = SubSeq(s.it, i + 1, i + m)]}
  ELSE {[Out(s) EXCEPT !.st = other]}

(***************************************************************************)
(* Ranges, C05                                                             *)
(***************************************************************************)
\* a = <<kind of the start, start, kind of the end, end>>; kinds 0: unbounded, 1: included, 2: excluded
RangeStart(a) == IF a[1] = 0 THEN 0 ELSE IF a[1] = 1 THEN Val(a[2]) ELSE Val(a[2]) + 1
RangeEnd(a, n) == IF a[3] = 0 THEN n ELSE IF a[3] = 1 THEN Val(a[4]) + 1 ELSE Val(a[4])
RangeOk(a, n) == RangeStart(a) <= RangeEnd(a, n) /\ RangeEnd(a, n) <= n

\* Opens a view of a range
OpenView(s, e, t) ==
  LET n == Len(s.it)  i == RangeStart(e.a)  j == RangeEnd(e.a, n)
      v == [NoView EXCEPT !.t = t, !.left = Take(s.it, i), !.mid = SubSeq(s.it, i + 1, j), !.right = Skip(s.it, j),
                          !.a = e.a, !.cap = s.cap]
  IN IF RangeOk(e.a, n)
     THEN {[Out(s) EXCEPT !.it = <<>>, !.v = v, !.vwc = t]}
     ELSE {Fail(s)}

OpenSpare(s, e) ==
  {[Out(s) EXCEPT !.it = <<>>, !.vwc = "spare",
      !.v = [NoView EXCEPT !.t = "spare", !.left = s.it, !.cap = s.cap]]}

OpenInto(s, e) ==
  {[Out(s) EXCEPT !.live = FALSE, !.it = <<>>, !.vwc = "into", !.al = "any",
      !.v = [NoView EXCEPT !.t = "into", !.mid = s.it, !.cap = s.cap]]}

(***************************************************************************)
(* Cursors, C10 C11                                                        *)
(***************************************************************************)
\* the number of unfilled slots that can be written at the front and at the back
SlotsFront(v) == IF v.mid = <<>> THEN v.gf + v.gb ELSE v.gf
SlotsBack(v)  == IF v.mid = <<>> THEN v.gf + v.gb ELSE v.gb
Extent(v) == Len(v.left) + v.gf + Len(v.mid) + v.gb + Len(v.right)

\* one slot less, at the front if possible
FillFront(v) == IF v.gf > 0 THEN [v EXCEPT !.gf = @ - 1] ELSE [v EXCEPT !.gb = @ - 1]
FillBack(v)  == IF v.gb > 0 THEN [v EXCEPT !.gb = @ - 1] ELSE [v EXCEPT !.gf = @ - 1]
RECURSIVE FillFrontN(_, _)
FillFrontN(v, n) == IF n = 0 THEN v ELSE FillFrontN(FillFront(v), n - 1)
RECURSIVE FillBackN(_, _)
FillBackN(v, n) == IF n = 0 THEN v ELSE FillBackN(FillBack(v), n - 1)

\* The view changed
Viewed(s, v) == [Out(s) EXCEPT !.v = v, !.vwc = v.t, !.ext = Extent(v)]
\* a safe cursor panics if it can't do something, a raw cursor must not be asked to
Refuse(s) == [Out(s) EXCEPT !.st = IF s.v.t = "rcursor" THEN "skip" ELSE "panic", !.vwc = s.v.t]

\* removes n elements, which are given to the caller or dropped
CutFront(v, n) == [v EXCEPT !.mid = Skip(@, n), !.gf = @ + n]
CutBack(v, n)  == [v EXCEPT !.mid = ButLast(@, n), !.gb = @ + n]

CTake(s, front) ==
  LET v == s.v IN
  IF v.mid = <<>> THEN {Refuse(s)}
  ELSE {[Viewed(s, IF front THEN CutFront(v, 1) ELSE CutBack(v, 1)) EXCEPT
           !.ret = <<IF front THEN v.mid[1] ELSE Last(v.mid)>>]}

CDrop(s, e, n, front) ==
  LET v == s.v IN
  IF n > Len(v.mid) THEN {Refuse(s)}
  ELSE InjDrop(s, e, Viewed(s, IF front THEN CutFront(v, n) ELSE CutBack(v, n)), n)

CSkip(s, n, front) ==
  LET v == s.v IN
  IF n > Len(v.mid) THEN {Refuse(s)}
  ELSE {Viewed(s, IF front THEN [v EXCEPT !.left = @ \o Take(v.mid, n), !.mid = Skip(@, n)]
                           ELSE [v EXCEPT !.right = Last_(v.mid, n) \o @, !.mid = ButLast(@, n)])}

\* writes xs, which are nn new elements
CWriteSeq(v, xs, front) ==
  IF front THEN [FillFrontN(v, Len(xs)) EXCEPT !.left = @ \o xs]
           ELSE [FillBackN(v, Len(xs)) EXCEPT !.right = xs \o @]

CWrite(s, e, front) ==
  IF (IF front THEN SlotsFront(s.v) ELSE SlotsBack(s.v)) > 0
  THEN {[Viewed(s, CWriteSeq(s.v, NewSeq(e, 1), front)) EXCEPT !.nn = 1]}
  ELSE IF s.v.t = "rcursor" THEN {Refuse(s)} ELSE {[Refuse(s) EXCEPT !.nn = 1]}

CTryWrite(s, e, front) ==
  IF s.v.t = "rcursor" THEN {[Refuse(s) EXCEPT !.st = "skip"]}
  ELSE IF (IF front THEN SlotsFront(s.v) ELSE SlotsBack(s.v)) > 0
  THEN {[Viewed(s, CWriteSeq(s.v, NewSeq(e, 1), front)) EXCEPT !.nn = 1]}
  ELSE {[Viewed(s, s.v) EXCEPT !.st = "err", !.nn = 1, !.ret = NewSeq(e, 1)]}

CWriteSlice(s, e, front) ==
  LET n == Len(e.a)  room == IF front THEN SlotsFront(s.v) ELSE SlotsBack(s.v) IN
  IF s.v.t = "cursor" /\ ~IsCopy(s) THEN {[Refuse(s) EXCEPT !.st = "skip"]}
  ELSE IF n <= room THEN {[Viewed(s, CWriteSeq(s.v, NewSeq(e, n), front)) EXCEPT !.nn = n]}
  ELSE {[Refuse(s) EXCEPT !.nn = IF s.v.t = "cursor" THEN n ELSE 0, !.kept = (s.v.t = "cursor")]}

\* At least n slots; how many more is only seen in the counters
CReserve(s, e) ==
  LET v == s.v  n == Val(e.a[1])  g == v.gf + v.gb  need == Len(v.left) + Len(v.right) + n IN
  IF v.mid # <<>> THEN {[Refuse(s) EXCEPT !.st = "panic"]}
  ELSE IF g >= n THEN {Viewed(s, v)}
  ELSE IF ~CanGrow(s.gr, v.cap, need) THEN {[Refuse(s) EXCEPT !.st = "panic"]}
  ELSE {[Viewed(s, [v EXCEPT !.gf = n - v.gb, !.grew = @ \/ need > v.cap]) EXCEPT
           !.vwc = "reserved", !.need = need, !.al = IF need > v.cap \/ v.grew THEN "grow" ELSE "fit"]}

CFinish(s) == {Viewed(s, [s.v EXCEPT !.left = @ \o s.v.mid, !.mid = <<>>, !.gf = 0, !.gb = 0])}

CSet(s, e, front) ==
  LET v == s.v  n == Len(v.mid) IN
  IF n = 0 THEN {[Viewed(s, v) EXCEPT !.st = IF v.t = "rcursor" THEN "skip" ELSE "none"]}
  ELSE IF IsZst(s) THEN {Viewed(s, v)}
  ELSE {Viewed(s, [v EXCEPT !.mid[IF front THEN 1 ELSE n] = WithKey(@, e.a[1])])}

(***************************************************************************)
(* The end of a view: the vector consists of what is left                  *)
(***************************************************************************)
\* s without the view
Closed(s) == [s EXCEPT !.v = NoView]
CloseWith(s, q) == [Ok(Closed(s), q) EXCEPT !.cap = IF s.v.grew THEN "free" ELSE "norm",
                                            !.al = IF s.v.t = "splice" THEN "any" ELSE "fit",
                                            !.ext = Max2(Extent(s.v), Len(q))]

CursorEnd(s) == {CloseWith(s, s.v.left \o s.v.mid \o s.v.right)}

\* the elements of mid that were not dropped may stay, or not
DrainEnd(s, e) ==
  LET v == s.v IN
  IF DropFault(s, e, Len(v.mid))
  THEN {[CloseWith(s, v.left \o q \o v.right) EXCEPT !.st = "inj", !.lost = TRUE] : q \in Subseqs(v.mid)}
  ELSE {CloseWith(s, v.left \o v.right)}

IntoEnd(s, e) ==
  {[o EXCEPT !.live = FALSE, !.al = "any"] : o \in InjDrop(s, e, CloseWith(s, <<>>), Len(s.v.mid))}

SpareEnd(s, e) == InjDrop(s, e, CloseWith(s, s.v.left), Len(s.v.mid))
SpareSave(s) == {CloseWith(s, s.v.left \o s.v.mid)}

\* Leaking a view: the vector holds some of the elements, in any order
Forget(s) ==
  IF s.v.t = "into" THEN {[CloseWith(s, <<>>) EXCEPT !.live = FALSE, !.lost = TRUE, !.lk = TRUE]}
  ELSE IF s.v.t = "spare" THEN {[CloseWith(s, s.v.left) EXCEPT !.lost = TRUE, !.lk = TRUE]}
  ELSE {[CloseWith(s, <<>>) EXCEPT !.perm = TRUE, !.lost = TRUE, !.lk = TRUE]}

\* The predicate is asked about everything that was not visited
FilterEnd(s, e) ==
  LET v == s.v  mode == v.a[5]  mask == v.a[6]  n == Len(v.mid)
      all == Visit(s, v.mid, mode, mask, v.calls)
      part(j) == Visit(s, Take(v.mid, j), mode, mask, v.calls)
      upto(j, st, calls) ==
        [CloseWith(s, v.left \o part(j).no \o Skip(v.mid, j) \o v.right) EXCEPT !.st = st, !.cl = Take(all.cl, calls)]
  IN
  IF v.pan THEN {CloseWith(s, v.left \o v.mid \o v.right)}
  ELSE IF CallFault(e, n) THEN {upto(e.fk - 1, "inj", e.fk)}
  ELSE IF DropFault(s, e, Len(all.yes))
  THEN LET j == CHOOSE j \in 1..n : Len(part(j).yes) = e.fk /\ (j = 1 \/ Len(part(j - 1).yes) < e.fk) IN
       {[upto(j, "inj", j) EXCEPT !.lost = TRUE], [upto(n, "inj", n) EXCEPT !.lost = TRUE]}
  ELSE {upto(n, "ok", n)}

\* The rest of the range is dropped, then the replacement is pulled, C14.
\* It is buffered if it does not fit the gap (nothing is allocated otherwise): a source that announces more than there can ever be (kind 3) may be refused then.
Room(s, v) == IF s.gr = "fixed" THEN Max2(0, v.cap - Len(v.left) - Len(v.right)) ELSE 1000
SpliceEnd(s, e) ==
  LET v == s.v  m == Len(v.a) - 5
      fits == \/ (s.gr = "fixed" \/ HintExact(v.a[5])) /\ m <= v.gf + Len(v.mid) + v.gb
              \/ s.gr = "fixed" /\ v.right = <<>> /\ v.gf + Len(v.mid) + v.gb = 0
      base == [s EXCEPT !.v = NoView, !.it = v.left \o v.right]
  IN
  IF DropFault(s, e, Len(v.mid))
  THEN {[CloseWith(s, v.left \o v.right) EXCEPT !.st = "inj", !.lost = TRUE],
        [CloseWith(s, v.left \o NewSeq(e, Min2(m, Room(s, v))) \o v.right) EXCEPT !.st = "inj", !.lost = TRUE, !.nn = -1,
              !.cl = Append(Times(1, m), 0), !.clz = TRUE, !.clp = TRUE, !.cap = "free"]}
  ELSE {[o EXCEPT !.al = IF fits THEN "fit" ELSE "any",
                  !.ext = Max2(Extent(v), Len(v.left) + m + Len(v.right))] :
        o \in Pull([base EXCEPT !.cap = s.v.cap], e, v.left, v.right, m, HintExact(v.a[5]))
               \cup (IF v.a[5] = 3 THEN PullFailed([base EXCEPT !.cap = s.v.cap], e, v.left, v.right, m, "panic", Given(e, m))
                     ELSE {})}

ViewEnd(s, e) ==
  CASE s.v.t \in {"cursor", "rcursor"} -> CursorEnd(s)
    [] s.v.t = "drain"   -> DrainEnd(s, e)
    [] s.v.t = "dfilter" -> FilterEnd(s, e)
    [] s.v.t = "splice"  -> SpliceEnd(s, e)
    [] s.v.t = "into"    -> IntoEnd(s, e)
    [] s.v.t = "spare"   -> SpareEnd(s, e)

(***************************************************************************)
(* Iterators, C12 - C15                                                    *)
(***************************************************************************)
\* Drain, Splice and IntoIter: skips (and drops) n elements and takes the next one
PlainNth(s, e, n, front) ==
  LET v == s.v  q == IF front THEN v.mid ELSE Rev(v.mid)
      cut(m) == IF front THEN CutFront(v, m) ELSE CutBack(v, m)
  IN
  IF DropFault(s, e, Min2(n, Len(q)))
  THEN {[Viewed(s, cut(m)) EXCEPT !.st = "inj", !.lost = TRUE] : m \in e.fk..Min2(n, Len(q))}
  ELSE IF n >= Len(q) THEN {[Viewed(s, cut(Len(q))) EXCEPT !.st = "none"]}
  ELSE {[Viewed(s, cut(n + 1)) EXCEPT !.ret = <<q[n + 1]>>]}

PlainRest(s, front) ==
  LET v == s.v IN
  {[Viewed(s, IF front THEN CutFront(v, Len(v.mid)) ELSE CutBack(v, Len(v.mid))) EXCEPT
      !.ret = IF front THEN v.mid ELSE Rev(v.mid)]}

\* DrainFilter: the first `visited` elements (from the front or the back) were visited, those for which the
\* predicate is true leave.  [v: the view afterwards, out: what left it, in order]
Filtered(s, visited, front) ==
  LET v == s.v  mode == v.a[5]  mask == v.a[6]
      q == IF front THEN Take(v.mid, visited) ELSE Rev(Last_(v.mid, visited))
      r == Visit(s, q, mode, mask, v.calls)
  IN [v |-> IF front
            THEN [v EXCEPT !.left = @ \o r.no, !.mid = Skip(@, visited), !.gf = @ + Len(r.yes), !.calls = @ + visited]
            ELSE [v EXCEPT !.right = Rev(r.no) \o @, !.mid = ButLast(@, visited), !.gb = @ + Len(r.yes),
                           !.calls = @ + visited],
      out |-> r.yes, cl |-> r.cl]

\* takes the (n+1)-th element for which the predicate is true and drops those before
FilterNth(s, e, n, front) ==
  LET v == s.v  mode == v.a[5]  mask == v.a[6]
      q == IF front THEN v.mid ELSE Rev(v.mid)
      visited == VisitedFor(s, q, mode, mask, v.calls, n + 1)
      r == Filtered(s, visited, front)
      found == Len(r.out) = n + 1
      drops == Min2(n, Len(r.out))
      result == IF found
                THEN [Viewed(s, r.v) EXCEPT !.ret = <<r.out[n + 1]>>, !.cl = r.cl]
                ELSE [Viewed(s, r.v) EXCEPT !.st = "none", !.cl = r.cl]
  IN
  IF CallFault(e, visited)
  THEN LET before == Filtered(s, e.fk - 1, front)
           cur == q[e.fk]
       IN {[Viewed(s, [before.v EXCEPT !.pan = TRUE, !.calls = @]) EXCEPT
              !.st = "inj", !.cl = Append(before.cl, cur)]}
  ELSE IF DropFault(s, e, drops)
  THEN LET upto == VisitedFor(s, q, mode, mask, v.calls, e.fk)
           before == Filtered(s, upto, front)
       IN {[Viewed(s, before.v) EXCEPT !.st = "inj", !.lost = TRUE, !.cl = before.cl]}
  ELSE {result}

FilterRest(s, e, front) ==
  LET v == s.v  n == Len(v.mid)  q == IF front THEN v.mid ELSE Rev(v.mid)
      r == Filtered(s, n, front)
  IN
  IF CallFault(e, n)
  THEN LET before == Filtered(s, e.fk - 1, front) IN
       {[Viewed(s, [before.v EXCEPT !.pan = TRUE]) EXCEPT !.st = "inj", !.ret = before.out,
              !.cl = Append(before.cl, q[e.fk])]}
  ELSE {[Viewed(s, r.v) EXCEPT !.ret = r.out, !.cl = r.cl]}

Nth(s, e, n, front) == IF s.v.t = "dfilter" THEN FilterNth(s, e, n, front) ELSE PlainNth(s, e, n, front)
Rest(s, e, front) == IF s.v.t = "dfilter" THEN FilterRest(s, e, front) ELSE PlainRest(s, front)

\* count and last consume the iterator: everything that is left leaves it, then it ends.  No faults.
Consume(s, e, last) ==
  LET v == s.v
      all == IF v.t = "dfilter" THEN Filtered(s, Len(v.mid), TRUE)
             ELSE [v |-> CutFront(v, Len(v.mid)), out |-> v.mid, cl |-> <<>>]
      n == Len(all.out)
      rest == [s EXCEPT !.v = all.v]
  \* if the end panics, the compiler may forget the result of `last`
  IN {IF o.st # "ok" THEN [o EXCEPT !.lost = @ \/ (last /\ n > 0)]
      ELSE [o EXCEPT !.cl = IF v.t = "dfilter" THEN all.cl ELSE @,
                     !.st = IF last /\ n = 0 THEN "none" ELSE @,
                     !.ret = IF last /\ n > 0 THEN <<all.out[n]>> ELSE <<>>,
                     !.n = IF last THEN ANY ELSE n] :
      o \in ViewEnd([rest EXCEPT !.v.pan = FALSE], e)}

\* The iterator yields what is left, up to the k-th element (everything if k = 0, or if there are not k elements).
\* [v: the view afterwards, out: what left it, cl: calls, stops: the k-th element was reached]
Yielded(s, k, front) ==
  LET v == s.v  mode == v.a[5]  mask == v.a[6]
      f == v.t = "dfilter"
      n == Len(v.mid)
      q == IF front THEN v.mid ELSE Rev(v.mid)
      total == IF f THEN Len(Filtered(s, n, front).out) ELSE n
      stops == 1 <= k /\ k <= total
      m == IF ~stops THEN n ELSE IF f THEN VisitedFor(s, q, mode, mask, v.calls, k) ELSE k
      r == IF f THEN Filtered(s, m, front)
           ELSE [v |-> IF front THEN CutFront(v, m) ELSE CutBack(v, m), out |-> Take(q, m), cl |-> <<>>]
  IN [v |-> r.v, out |-> r.out, cl |-> r.cl, stops |-> stops]

\* A callback takes everything that is left (it panics with the k-th element, if k > 0), then the iterator ends
Fold(s, e, k, front) ==
  LET r == Yielded(s, k, front) IN
  {[o EXCEPT !.cl = IF s.v.t = "dfilter" THEN r.cl \o @ ELSE @,
             !.st = IF r.stops THEN "inj" ELSE @,
             !.ret = IF r.stops THEN Take(r.out, k - 1) ELSE r.out] :
   o \in ViewEnd([s EXCEPT !.v = r.v], e)}

\* A callback takes what is left up to the k-th element, and the iterator can be used again
TryFold(s, k, front) ==
  LET r == Yielded(s, k, front) IN {[Viewed(s, r.v) EXCEPT !.ret = r.out, !.cl = r.cl]}

\* changes the key of the element at a position of an owning iterator's slice
Touch(s, e) ==
  LET i == Val(e.a[1]) IN
  {Viewed(s, IF s.v.t = "into" /\ i < Len(s.v.mid) /\ ~IsZst(s)
             THEN [s.v EXCEPT !.mid[i + 1] = WithKey(@, e.a[2])] ELSE s.v)}

(***************************************************************************)
(* The spare capacity, C23                                                 *)
(***************************************************************************)
SpareRoom(s) == IF IsZst(s) THEN Unlimited ELSE s.v.cap - Len(s.v.left)

SPut(s, e, i, x, other) ==
  LET v == s.v IN
  IF i <= Len(v.mid) /\ Len(v.mid) < SpareRoom(s)
  THEN {[Viewed(s, [v EXCEPT !.mid = InsertSeq(@, i, <<x>>)]) EXCEPT !.nn = 1]}
  ELSE {[Viewed(s, v) EXCEPT !.st = other, !.nn = 1, !.ret = IF other = "err" THEN <<x>> ELSE <<>>]}

STake(s, i, other) ==
  LET v == s.v IN
  IF i >= 0 /\ i < Len(v.mid)
  THEN {[Viewed(s, [v EXCEPT !.mid = RemoveSeq(@, i, 1)]) EXCEPT !.ret = <<v.mid[i + 1]>>]}
  ELSE {[Viewed(s, v) EXCEPT !.st = other]}

(***************************************************************************)
(* Creating and consuming vectors, C20 C25                                 *)
(***************************************************************************)
\* own, wide, slim, fat: with destructors; copy, tri, tiny: Copy; zst, zal, zcp: zero-sized
SizeOf(k) ==
  CASE k = "own" -> 24 [] k = "fat" -> 1224 [] k = "wide" -> 32 [] k = "slim" -> 4 [] k = "copy" -> 8 [] k = "tri" -> 3 [] k = "tiny" -> 1
    [] OTHER -> 0
KindOf(k) == CASE k \in {"wide", "slim", "fat"} -> "own" [] k \in {"tri", "tiny"} -> "copy" [] k = "zal" -> "zst" [] OTHER -> k

RoundUp(n, a) == ((n + a - 1) \div a) * a
AlignOf(k) == CASE k \in {"wide", "zal"} -> 32 [] k \in {"slim", "zcp"} -> 4 [] k \in {"zst", "tri", "tiny"} -> 1 [] OTHER -> 8

\* alignment of the storage of other hosts, and their size in bytes, for the requested size n
HostAlign(h, k, n) ==
  CASE h \in {"fheap8", "fslice8", "fheap0", "fslice0"} -> 8
    [] h \in {"fheap64", "fslice64"} -> 32
    [] h = "fslice1" -> 1
    [] h = "farr" /\ n \in {0, 1, 6} -> 8
    [] h = "farr" /\ n \in {2, 3} -> AlignOf(k)
    [] h = "farr" /\ n = 5 -> 2
    [] h = "farr" -> 1
    [] OTHER -> AlignOf(k)
HostBytes(h, k, n) ==
  CASE h = "fslice8" -> n * 8
    [] h = "fslice64" -> n * 64
    [] h = "fslice1" -> n
    [] h = "farr" /\ n = 0 -> 24
    [] h = "farr" /\ n = 1 -> 40
    [] h = "farr" /\ n = 2 -> RoundUp(50, AlignOf(k))
    [] h = "farr" /\ n = 3 -> RoundUp(104, AlignOf(k))
    [] h = "farr" /\ n = 4 -> 96
    [] h = "farr" /\ n = 5 -> 50
    [] OTHER -> 0

\* k: the full kind
Aligned(h, k, n) == HostAlign(h, k, n) >= AlignOf(k)

HostGrows(h, k) ==
  CASE k \in Zsts -> "zst"
    [] h \in {"heap", "heapa", "refheap", "fheap8", "fheap64"} -> "heap"
    [] h = "user" -> "user"
    [] OTHER -> "fixed"

\* The capacity of a new vector for the requested size n (a lower bound if it can grow)
HostCap(h, k, n) ==
  CASE k \in Zsts -> Unlimited
    [] h \in {"slice", "arr", "box", "boxslice", "iarr", "islice", "ibox"} -> n
    [] h \in {"fslice0", "fslice1", "fslice8", "fslice64", "farr"} -> HostBytes(h, k, n) \div SizeOf(k)
    [] h = "fheap0" -> 0
    [] OTHER -> n

\* default contents of initialised storages
DefaultId == 7200000

\* the number of elements that array storages have if the script does not say it
ArrayDefault == 4
CreateSize(s, e) ==
  CASE e.op \in {"init", "init_full"} -> e.a[1]
    [] e.op = "from_arr" -> Len(e.a) - 1
    [] s.h \in {"arr", "box", "iarr", "farr"} -> ArrayDefault
    [] OTHER -> 0

\* Constructors.  s.k0 is not kept: the full kind is in the host record of the trace
Create(s, e, k) ==
  LET n == CreateSize(s, e)
      gr == HostGrows(s.h, k)
      cap == HostCap(s.h, k, n)
      new == [s EXCEPT !.gr = gr, !.cap = cap, !.live = TRUE, !.made = TRUE]
      made(q, need) == [Ok(new, q) EXCEPT !.need = need, !.al = "any", !.cap = "new", !.ext = Len(q)]
      failed(nn) == [Out(s) EXCEPT !.st = "panic", !.nn = nn, !.al = "any"]
      fixed == gr = "fixed"
      fits(m) == CanGrow(gr, cap, m)
  IN
  IF ~Aligned(s.h, k, n) THEN {failed(IF e.op \in {"gvec", "gvec_rep"} THEN -1 ELSE 0)}
  ELSE
  CASE e.op = "init" ->
         (IF (s.h = "fheap0" /\ n > 0 /\ gr # "zst") \/ (s.h = "user" /\ n > UserLimit) THEN {failed(0)}
          ELSE LET m == Len(e.a) - 1 IN
               IF fits(m) THEN {[made(NewSeq(e, m), Max2(m, IF fixed THEN 0 ELSE n)) EXCEPT !.nn = m]}
               ELSE {[made(NewSeq(e, cap), cap) EXCEPT !.nn = cap + 1, !.st = "panic"]})
    [] e.op = "init_full" ->
         LET m == Len(e.a) - 1 IN
         \* a buffer that was made from an array of elements
         IF s.h = "arr"
         THEN IF m = e.a[1] THEN {[made(NewSeq(e, m), m) EXCEPT !.nn = m]} ELSE {Skipped(s)}
         ELSE IF s.k # "copy" THEN {Skipped(s)} ELSE
         {[made(NewSeq(e, Min2(m, cap)) \o Times(DefaultId, cap - Min2(m, cap)), cap) EXCEPT !.nn = Min2(m, cap)]}
    [] e.op = "with_cap" ->
         LET m == Val(e.a[1]) IN
         IF (gr = "zst" /\ s.h = "zs") THEN {made(<<>>, 0)}
         ELSE IF fits(m) THEN {made(<<>>, IF fixed THEN 0 ELSE m)} ELSE {failed(0)}
    [] e.op \in {"default", "new"} ->
         {[made(<<>>, 0) EXCEPT !.al = IF s.h \in {"box"} THEN "any" ELSE "fit"]}
    [] e.op = "collect" ->
         LET m == Len(e.a) - 1
             outs == Pull([new EXCEPT !.it = <<>>], e, <<>>, <<>>, m, FALSE) IN
         {IF o.st = "ok" THEN [o EXCEPT !.al = "any", !.cap = "new"]
          ELSE [o EXCEPT !.al = "any", !.it = <<>>, !.live = FALSE] : o \in outs}
    [] e.op = "gvec" ->
         LET m == Len(e.a) IN
         IF fits(m) THEN {[made(NewSeq(e, m), m) EXCEPT !.nn = m]}
         ELSE {[failed(-1) EXCEPT !.nn = j] : j \in 0..m}
    [] e.op = "gvec_rep" ->
         LET m == Val(e.a[1]) IN
         IF ~fits(m) THEN {failed(1)}
         ELSE IF m = 0 /\ DropFault(s, e, 1) THEN {[failed(1) EXCEPT !.st = "inj", !.lost = TRUE]}
         ELSE IF CloneFault(s, e, m - 1) THEN {[failed(1) EXCEPT !.st = "inj", !.bn = -1]}
         ELSE IF m = 0 THEN {[made(<<>>, 0) EXCEPT !.nn = 1]}
         ELSE {[made(q, m) EXCEPT !.nn = 1, !.bn = -1] : q \in Copies(s, <<>>, New(e, 1), m)}
    [] e.op = "from_vec" ->
         LET m == Len(e.a) - 1 IN {[made(NewSeq(e, m), Max2(m, e.a[1])) EXCEPT !.nn = m, !.al = "fit"]}
    [] e.op = "from_arr" ->
         LET m == Len(e.a) - 1 IN {[made(NewSeq(e, m), m) EXCEPT !.nn = m, !.al = "fit"]}
    [] OTHER -> {Skipped(s)}

\* The state before the vector is created.  k is the full kind
Start(k, h) == [Blank(KindOf(k), h) EXCEPT !.gr = HostGrows(h, k)]

\* the vector is gone
Gone(s) == [Out(s) EXCEPT !.live = FALSE, !.it = <<>>, !.al = "any"]

DropVec(s, e) == InjDrop(s, e, Gone(s), Len(s.it))

CloneVec(s, e, swap) ==
  LET n == Len(s.it) IN
  IF CloneFault(s, e, n) THEN {[Out(s) EXCEPT !.st = "inj", !.bn = -1, !.al = "any", !.stale = "keep"]}
  ELSE IF swap
  THEN LET o == [Ok(s, Negs(s.it)) EXCEPT !.bn = Clones(s, n), !.ret = Negs(s.it), !.rown = FALSE, !.al = "any",
                                         !.cap = "new", !.need = IF s.gr = "fixed" THEN 0 ELSE n,
                                         !.n = -n - 1000] IN
       IF DropFault(s, e, n) THEN {[o EXCEPT !.st = "inj", !.lost = TRUE]} ELSE {o}
  ELSE {[Out(s) EXCEPT !.bn = Clones(s, n), !.ret = Negs(s.it), !.al = "any", !.n = -n - 1000, !.stale = "keep"]}

CloneFromVec(s, e) == {[o EXCEPT !.al = "any"] : o \in CloneFrom(s, e)}

\* values beyond the length that are still known
SetLen(s, e) ==
  LET n == Val(e.a[1])  len == Len(s.it) IN
  IF n > s.cap THEN {Fail(s)}
  ELSE IF n <= len THEN {[Ok(s, Take(s.it, n)) EXCEPT !.stale = "keep"]}
  ELSE {[Ok(s, s.it \o [j \in 1..(n - len) |-> IF j <= Len(s.st) THEN s.st[j] ELSE Unknown]) EXCEPT !.stale = "keep"]}

\* through a Vec, which gets further elements
VecRound(s, e) ==
  LET m == Len(e.a) IN
  {[Ok(s, s.it \o NewSeq(e, m)) EXCEPT !.nn = m, !.need = Len(s.it) + m, !.cap = IF m = 0 THEN "norm" ELSE "free",
                                       !.al = IF m = 0 THEN "fit" ELSE "any"]}
ToVec(s, e) ==
  {[o EXCEPT !.ret = s.it, !.rown = FALSE] : o \in InjDrop(s, e, Gone(s), Len(s.it))}

IntoArray(s, e) ==
  IF Len(s.it) = s.cap THEN {[Gone(s) EXCEPT !.ret = s.it, !.al = "fit"]}
  ELSE {[Gone(s) EXCEPT !.st = "panic"]}

\* the vector is leaked
ForgetVec(s) == {[Gone(s) EXCEPT !.lost = TRUE, !.lk = TRUE]}

Constructors == {"init", "init_full", "with_cap", "default", "new", "collect", "gvec", "gvec_rep", "from_vec", "from_arr"}

(***************************************************************************)
(* All operations                                                          *)
(***************************************************************************)
SpareOps == {"s_push", "s_try_push", "s_pop", "s_insert", "s_remove", "s_save", "v_end", "v_forget"}
CursorOps == {"c_take_front", "c_take_back", "c_drop_front", "c_drop_back", "c_drop_n_front", "c_drop_n_back",
  "c_write_front", "c_write_back", "c_try_write_front", "c_try_write_back", "c_wslice_front", "c_wslice_back",
  "c_skip_front", "c_skip_back", "c_skip_n_front", "c_skip_n_back", "c_reserve", "c_finish", "c_set_front",
  "c_set_back", "v_end", "v_forget"}
IterOps == {"v_next", "v_next_back", "v_nth", "v_nth_back", "v_rest", "v_rest_back", "v_count", "v_last",
  "v_fold", "v_rfold", "v_each", "v_try", "v_try_back", "v_into_vec", "v_touch", "v_end", "v_forget"}

ViewOutcomes(s, e) ==
  LET op == e.op  a == e.a IN
  CASE op = "v_end" -> ViewEnd(s, e)
    [] op = "v_forget" -> Forget(s)
    [] s.v.t \in {"cursor", "rcursor"} /\ op \in CursorOps ->
       (CASE op = "c_take_front" -> CTake(s, TRUE)
          [] op = "c_take_back" -> CTake(s, FALSE)
          [] op = "c_drop_front" -> CDrop(s, e, 1, TRUE)
          [] op = "c_drop_back" -> CDrop(s, e, 1, FALSE)
          [] op = "c_drop_n_front" -> CDrop(s, e, Val(a[1]), TRUE)
          [] op = "c_drop_n_back" -> CDrop(s, e, Val(a[1]), FALSE)
          [] op = "c_write_front" -> CWrite(s, e, TRUE)
          [] op = "c_write_back" -> CWrite(s, e, FALSE)
          [] op = "c_try_write_front" -> CTryWrite(s, e, TRUE)
          [] op = "c_try_write_back" -> CTryWrite(s, e, FALSE)
          [] op = "c_wslice_front" -> CWriteSlice(s, e, TRUE)
          [] op = "c_wslice_back" -> CWriteSlice(s, e, FALSE)
          [] op = "c_skip_front" -> CSkip(s, 1, TRUE)
          [] op = "c_skip_back" -> CSkip(s, 1, FALSE)
          [] op = "c_skip_n_front" -> CSkip(s, Val(a[1]), TRUE)
          [] op = "c_skip_n_back" -> CSkip(s, Val(a[1]), FALSE)
          [] op = "c_reserve" -> CReserve(s, e)
          [] op = "c_finish" -> CFinish(s)
          [] op = "c_set_front" -> CSet(s, e, TRUE)
          [] op = "c_set_back" -> CSet(s, e, FALSE))
    [] s.v.t \in {"drain", "dfilter", "splice", "into"} /\ op \in IterOps ->
       (CASE op = "v_next" -> Nth(s, e, 0, TRUE)
          [] op = "v_next_back" -> Nth(s, e, 0, FALSE)
          [] op = "v_nth" -> Nth(s, e, Val(a[1]), TRUE)
          [] op = "v_nth_back" -> Nth(s, e, Val(a[1]), FALSE)
          [] op = "v_rest" -> Rest(s, e, TRUE)
          [] op = "v_rest_back" -> Rest(s, e, FALSE)
          [] op = "v_count" -> Consume(s, e, FALSE)
          [] op = "v_last" -> Consume(s, e, TRUE)
          [] op = "v_fold" -> Fold(s, e, a[1], TRUE)
          [] op = "v_each" -> Fold(s, e, a[1], TRUE)
          [] op = "v_rfold" -> Fold(s, e, a[1], FALSE)
          [] op = "v_try" -> TryFold(s, a[1], TRUE)
          [] op = "v_try_back" -> TryFold(s, a[1], FALSE)
          [] op = "v_into_vec" -> Fold(s, e, 0, TRUE)
          [] op = "v_touch" -> Touch(s, e))
    [] s.v.t = "spare" /\ op \in SpareOps ->
       (CASE op = "s_push" -> SPut(s, e, Len(s.v.mid), New(e, 1), "panic")
          [] op = "s_try_push" -> SPut(s, e, Len(s.v.mid), New(e, 1), "err")
          [] op = "s_insert" -> SPut(s, e, Val(a[1]), New(e, 1), "panic")
          [] op = "s_pop" -> STake(s, Len(s.v.mid) - 1, "none")
          [] op = "s_remove" -> STake(s, Val(a[1]), "panic")
          [] op = "s_save" -> SpareSave(s))
    [] OTHER -> {[Skipped(s) EXCEPT !.vwc = s.v.t]}

VecOutcomes(s, e) ==
  LET op == e.op  a == e.a IN
  CASE op = "state" -> {[Out(s) EXCEPT !.stale = "keep"]}
    [] op = "push" -> Push(s, e)
    [] op = "push_u" -> PushU(s, e)
    [] op = "try_push" -> TryPush(s, e)
    [] op = "insert" -> Insert(s, e)
    [] op = "insert_u" -> InsertU(s, e)
    [] op = "try_insert" -> TryInsert(s, e)
    [] op = "pop" -> Pop(s, "panic")
    [] op = "pop_u" -> Pop(s, "skip")
    [] op = "try_pop" -> Pop(s, "none")
    [] op = "remove" -> RemoveOne(s, e, "panic")
    [] op = "remove_u" -> RemoveOne(s, e, "skip")
    [] op = "try_remove" -> RemoveOne(s, e, "none")
    [] op = "swap_remove" -> SwapRemove(s, e, "panic")
    [] op = "swap_remove_u" -> SwapRemove(s, e, "skip")
    [] op = "try_swap_remove" -> SwapRemove(s, e, "none")
    [] op = "truncate" -> TruncateTo(s, e, Val(a[1]), 0)
    [] op = "clear" -> TruncateTo(s, e, 0, 0)
    [] op = "reserve" -> Reserve(s, e)
    [] op = "try_reserve" -> TryReserve(s, e)
    [] op = "raw_reserve" -> RawReserve(s, e)
    [] op = "raw_try" -> RawTryReserve(s, e)
    [] op = "grow" -> Grow(s, e)
    [] op = "resize" -> Resize(s, e)
    [] op = "grow_with" -> GrowWith(s, e)
    [] op = "resize_with" -> ResizeWith(s, e)
    [] op = "extend" -> Extend(s, e)
    [] op = "extend_ref" -> ExtendRef(s, e)
    [] op = "efs" -> ExtendFromSlice(s, e)
    [] op = "efs_u" -> ExtendFromSliceU(s, e)
    [] op = "clone_from" -> CloneFrom(s, e)
    [] op = "clone_from_vec" -> CloneFromVec(s, e)
    [] op = "retain" -> Retain(s, e)
    [] op = "dedup" -> Dedup(s, e, 0, 0, 1, TRUE)
    [] op = "dedup_by" -> Dedup(s, e, a[1], a[2], 1, TRUE)
    [] op = "dedup_key" -> Dedup(s, e, 4, 0, 2, FALSE)
    [] op = "initb" -> InitPeer(s, e)
    [] op = "append" -> Append_(s, e)
    [] op = "append_rev" -> SplitInto(s, e, 0)
    [] op = "split_into" -> SplitInto(s, e, Val(a[1]))
    [] op = "cmpb" -> ComparePeer(s, e)
    [] op = "split_off" -> SplitOff(s, e)
    [] op \in {"cursor", "rcursor", "drain", "dfilter", "splice"} -> OpenView(s, e, op)
    [] op = "spare" -> OpenSpare(s, e)
    [] op = "into_iter" -> OpenInto(s, e)
    [] op = "views" -> Views(s)
    [] op = "set_at" -> SetAt(s, e)
    [] op = "index" -> Index(s, e)
    [] op = "cmp" -> Compare(s, e)
    [] op = "cmpn" -> ComparePartial(s, e)
    [] op = "cmpv" -> CompareSame(s, e)
    [] op = "push_arr" -> PushArray(s, e, Len(s.it), Len(a))
    [] op = "push_arr_u" -> PushArrayU(s, e, Len(s.it), Len(a))
    [] op = "try_push_arr" -> TryPushArray(s, e, Len(s.it), Len(a))
    [] op = "insert_arr" -> PushArray(s, e, Val(a[1]), Len(a) - 1)
    [] op = "insert_arr_u" -> PushArrayU(s, e, Val(a[1]), Len(a) - 1)
    [] op = "try_insert_arr" -> TryPushArray(s, e, Val(a[1]), Len(a) - 1)
    [] op = "pop_arr" -> TakeArray(s, Len(s.it) - a[1], a[1], "panic")
    [] op = "pop_arr_u" -> TakeArray(s, Len(s.it) - a[1], a[1], "skip")
    [] op = "try_pop_arr" -> TakeArray(s, Len(s.it) - a[1], a[1], "none")
    [] op = "remove_arr" -> TakeArray(s, Val(a[2]), a[1], "panic")
    [] op = "remove_arr_u" -> TakeArray(s, Val(a[2]), a[1], "skip")
    [] op = "try_remove_arr" -> TakeArray(s, Val(a[2]), a[1], "none")
    [] op = "drop" -> DropVec(s, e)
    [] op = "forget" -> ForgetVec(s)
    [] op \in {"raw_rt", "heap_rt"} -> {Out(s)}
    [] op = "clone" -> CloneVec(s, e, FALSE)
    [] op = "clone_swap" -> CloneVec(s, e, TRUE)
    [] op = "set_len" -> SetLen(s, e)
    [] op = "convert" -> Convert(s, e)
    [] op = "vec_rt" -> VecRound(s, e)
    [] op = "to_vec" -> ToVec(s, e)
    [] op = "into_arr" -> IntoArray(s, e)
    [] OTHER -> {Skipped(s)}

\* Not all storages have all constructors and conversions
SizedHosts == {"heap", "heapa", "arr", "user", "fheap0", "fheap8", "fheap64", "box", "farr", "iarr", "zs"}
InitHosts == {"iarr", "islice", "ibox"}
Has(h, op) ==
  CASE op \in {"with_cap", "default", "collect", "clone", "clone_swap", "clone_from_vec", "gvec", "gvec_rep"} -> h \in SizedHosts
    [] op = "new" -> h \in {"heap", "heapa", "arr", "zs"}
    [] op \in {"from_vec", "vec_rt", "to_vec", "heap_rt"} -> h \in {"heap", "heapa"}
    [] op \in {"from_arr", "into_arr"} -> h = "arr"
    [] op = "init_full" -> h \in {"iarr", "islice", "arr"}
    [] op = "set_len" -> h \in InitHosts
    [] OTHER -> TRUE

\* k: the full kind of the elements
Outcomes(s, e, k) ==
  IF Open(s) THEN ViewOutcomes(s, e)
  ELSE IF ~Has(s.h, e.op) THEN {Skipped(s)}
  ELSE IF s.live THEN VecOutcomes(s, e)
  ELSE IF e.op \in Constructors THEN Create(s, e, k)
  ELSE IF e.op = "dropb" THEN DropPeer(s, e)
  ELSE {Skipped(s)}

(***************************************************************************)
(* The keys of the elements that an operation creates, in order            *)
(***************************************************************************)
NewKeys(s, e) ==
  LET op == e.op  a == e.a
      from(i) == SubSeq(a, i, Len(a)) IN
  IF op \in {"v_end", "v_count", "v_last", "v_fold", "v_each", "v_rfold", "v_into_vec"}
  THEN (IF s.v.t = "splice" THEN SubSeq(s.v.a, 6, Len(s.v.a)) ELSE <<>>)
  ELSE
  CASE op \in {"push", "push_u", "try_push", "c_write_front", "c_write_back", "c_try_write_front", "c_try_write_back",
               "s_push", "s_try_push"} -> <<a[1]>>
    [] op \in {"insert", "insert_u", "try_insert", "grow", "resize", "s_insert", "gvec_rep"} -> <<a[2]>>
    [] op \in {"grow_with", "resize_with"} ->
       LET n == IF op = "grow_with" THEN Val(a[1]) ELSE Max2(0, Val(a[1]) - Len(s.it)) IN
       IF n > 1000 THEN <<>> ELSE [j \in 1..n |-> (a[2] + j - 1) % 8]
    [] op \in {"extend", "extend_ref", "init", "init_full", "insert_arr", "insert_arr_u", "try_insert_arr", "collect",
               "from_vec", "from_arr"} -> from(2)
    [] op \in {"efs", "efs_u", "clone_from", "clone_from_vec", "push_arr", "push_arr_u", "try_push_arr", "vec_rt", "gvec",
               "c_wslice_front", "c_wslice_back"} -> a
    [] op = "initb" -> from(3)
    [] OTHER -> <<>>

(***************************************************************************)
(* The counters that views report, C11                                     *)
(***************************************************************************)
CursorCounters(v) ==
  LET n == Len(v.mid)
      g == Min2(v.gf + v.gb, Unlimited) IN
  <<n, Bool(n = 0), IF n = 0 THEN g ELSE -1, Min2(SlotsFront(v), Unlimited), Min2(SlotsBack(v), Unlimited),
    Bool(n = 0 /\ g = 0), Bool(SlotsFront(v) = 0), Bool(SlotsBack(v) = 0),
    IF n = 0 THEN -1 ELSE v.mid[1], IF n = 0 THEN -1 ELSE v.mid[n]>>

=============================================================================
