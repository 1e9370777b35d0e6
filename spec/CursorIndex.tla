---------------------------- MODULE CursorIndex ----------------------------
(***************************************************************************)
(* The arithmetic of cursors for memory of every size: the pointers of     *)
(* RawCursor as positions, next to the counters of the specification.      *)
(*                                                                         *)
(* Apalache proves that Inv is inductive (it holds initially, and every    *)
(* step from a state with Inv leads to one with Inv), for all integers.    *)
(* Inv includes ok: no operation touched a slot that is not what it needs. *)
(*                                                                         *)
(* The same arithmetic is used for elements without a size, where          *)
(* positions are numbers that are no pointers.                             *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  cap,
  \* @type: Int;
  vlen,
  \* @type: Int;
  old,
  \* @type: Int;
  wf,
  \* @type: Int;
  rf,
  \* @type: Int;
  rb,
  \* @type: Int;
  wb,
  \* @type: Int;
  left,
  \* @type: Int;
  gf,
  \* @type: Int;
  mid,
  \* @type: Int;
  gb,
  \* @type: Int;
  right,
  \* @type: Bool;
  ok

Min(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* The counters that RawCursor reports, and those of the specification     *)
(***************************************************************************)
IsEmpty == rb = rf
IsWriteEmpty == wb = wf
WriteLen == wb - wf
WriteFrontLen == IF IsEmpty THEN WriteLen ELSE IF IsWriteEmpty THEN 0 ELSE rf - wf
WriteBackLen == IF IsEmpty THEN WriteLen ELSE IF IsWriteEmpty THEN 0 ELSE wb - rb
IsWriteFrontEmpty == IsWriteEmpty \/ (wf = rf /\ ~IsEmpty)
IsWriteBackEmpty == IsWriteEmpty \/ (wb = rb /\ ~IsEmpty)

SlotsFront == IF mid = 0 THEN gf + gb ELSE gf
SlotsBack == IF mid = 0 THEN gf + gb ELSE gb

Inv ==
  /\ ok
  /\ cap >= 0 /\ vlen >= 0 /\ left >= 0 /\ gf >= 0 /\ mid >= 0 /\ gb >= 0 /\ right >= 0
  /\ 0 <= wf /\ wf <= wb /\ wb <= old /\ old <= cap
  \* a vector whose cursor is leaked has elements only: those before it, or all of them if there is no gap
  /\ vlen <= left \/ (gf + mid + gb = 0 /\ vlen = left + right)
  /\ left = wf /\ right = old - wb /\ mid = rb - rf
  /\ gf + mid + gb = wb - wf
  /\ mid > 0 => gf = rf - wf /\ gb = wb - rb

\* what is reported
Counters ==
  /\ WriteFrontLen = SlotsFront /\ WriteBackLen = SlotsBack
  /\ IsEmpty <=> mid = 0
  /\ IsWriteEmpty <=> gf + mid + gb = 0
  /\ IsWriteFrontEmpty <=> SlotsFront = 0
  /\ IsWriteBackEmpty <=> SlotsBack = 0

Proved == Inv /\ Counters

\* every state with Inv
Any ==
  /\ cap \in Int /\ vlen \in Int /\ old \in Int /\ wf \in Int /\ rf \in Int /\ rb \in Int /\ wb \in Int
  /\ left \in Int /\ gf \in Int /\ mid \in Int /\ gb \in Int /\ right \in Int /\ ok \in BOOLEAN
  /\ Inv

\* RawCursor::new for a range of a vector
Init ==
  \E n \in Int, c \in Int, i \in Int, j \in Int :
    /\ 0 <= i /\ i <= j /\ j <= n /\ n <= c
    /\ cap = c /\ old = n /\ vlen = i /\ wf = i /\ rf = i /\ rb = j /\ wb = j
    /\ left = i /\ gf = 0 /\ mid = j - i /\ gb = 0 /\ right = n - j /\ ok = TRUE

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
\* the n elements at p are visited ones that are left
IsMid(p, n) == p >= rf /\ p + n <= rb /\ n <= mid
\* the n slots at p hold no element: those of the gap
IsGap(p, n) == wf <= p /\ p + n <= wb /\ (mid > 0 => p + n <= rf \/ p >= rb)

RemoveFront(n) ==
  /\ 0 <= n /\ n <= rb - rf
  /\ ok' = (ok /\ IsMid(rf, n))
  /\ rf' = rf + n /\ mid' = mid - n /\ gf' = gf + n
  /\ UNCHANGED <<cap, vlen, old, wf, rb, wb, left, gb, right>>

RemoveBack(n) ==
  /\ 0 <= n /\ n <= rb - rf
  /\ rb' = rb - n /\ mid' = mid - n /\ gb' = gb + n
  /\ ok' = (ok /\ IsMid(rb - n, n))
  /\ UNCHANGED <<cap, vlen, old, wf, rf, wb, left, gf, right>>

\* moves to wf.. from rf..: the slots up to rf are the gap, and those behind it have been read
SkipFront(n) ==
  /\ 0 <= n /\ n <= rb - rf
  /\ ok' = (ok /\ IsMid(rf, n) /\ (n > 0 => wf <= rf /\ IsGap(wf, Min(n, rf - wf))))
  /\ rf' = rf + n /\ wf' = wf + n /\ left' = left + n /\ mid' = mid - n
  /\ UNCHANGED <<cap, vlen, old, rb, wb, gf, gb, right>>

SkipBack(n) ==
  /\ 0 <= n /\ n <= rb - rf
  /\ ok' = (ok /\ IsMid(rb - n, n) /\ (n > 0 => wb >= rb /\ IsGap(wb - Min(n, wb - rb), Min(n, wb - rb))))
  /\ rb' = rb - n /\ wb' = wb - n /\ right' = right + n /\ mid' = mid - n
  /\ UNCHANGED <<cap, vlen, old, rf, wf, gf, gb, left>>

\* n slots less, of the gap at the front if there are any
WriteFront(n) ==
  /\ 0 <= n /\ (n = 1 => ~IsWriteFrontEmpty) /\ (n # 1 => n <= WriteFrontLen)
  /\ ok' = (ok /\ IsGap(wf, n))
  /\ wf' = wf + n /\ left' = left + n /\ gf' = gf - Min(gf, n) /\ gb' = gb - (n - Min(gf, n))
  /\ UNCHANGED <<cap, vlen, old, rf, rb, wb, mid, right>>

WriteBack(n) ==
  /\ 0 <= n /\ (n = 1 => ~IsWriteBackEmpty) /\ (n # 1 => n <= WriteBackLen)
  /\ ok' = (ok /\ IsGap(wb - n, n))
  /\ wb' = wb - n /\ right' = right + n /\ gb' = gb - Min(gb, n) /\ gf' = gf - (n - Min(gb, n))
  /\ UNCHANGED <<cap, vlen, old, rf, rb, wf, mid, left>>

\* the elements behind the cursor move up
Reserve(n) ==
  /\ 0 <= n /\ IsEmpty /\ WriteLen < n
  /\ \E c \in Int :
       /\ c >= cap /\ c >= wf + (old - wb) + n
       /\ cap' = c
       /\ ok' = (ok /\ old + (n - WriteLen) <= c)
  /\ vlen' = Min(vlen, wf)
  /\ wb' = wb + (n - WriteLen) /\ old' = old + (n - WriteLen)
  /\ gf' = n - gb
  /\ UNCHANGED <<wf, rf, rb, left, mid, gb, right>>

\* everything that was not visited is kept, and the elements behind the cursor move down
Finish ==
  LET w == wf + (rb - rf)  back == old - wb IN
  /\ old # 0
  /\ ok' = (ok /\ back >= 0 /\ w <= wb /\ w + back <= old /\ (rb - rf > 0 => wf <= rf))
  /\ wf' = w /\ rf' = w /\ rb' = w /\ wb' = w /\ old' = w + back
  /\ vlen' = w + back
  /\ left' = left + mid /\ mid' = 0 /\ gf' = 0 /\ gb' = 0
  /\ UNCHANGED <<cap, right>>

\* The vector has all its elements after finish, up to the next reserve
Next ==
  \/ \E n \in Int :
       \/ RemoveFront(n) \/ RemoveBack(n) \/ SkipFront(n) \/ SkipBack(n)
       \/ WriteFront(n) \/ WriteBack(n) \/ Reserve(n)
  \/ Finish

=============================================================================
