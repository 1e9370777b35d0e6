----------------------------- MODULE RawCursor -----------------------------
(***************************************************************************)
(* The algorithm of cursors, which Drain, DrainFilter, Splice and retain   *)
(* are built on: four pointers into the vector's memory, the length that   *)
(* the vector had, and the length that it is given while it is borrowed.   *)
(*                                                                         *)
(* TLC checks, for all sequences of operations,                            *)
(*  - that no element is overwritten, read where there is none, duplicated *)
(*    or lost,                                                             *)
(*  - that leaking the cursor at any time leaves a vector of elements,     *)
(*  - that it refines the cursors of GenericVec: every step is a step of   *)
(*    the specification that the implementation is held against, and what  *)
(*    the memory holds is what that says.                                  *)
(* CursorIndex does the arithmetic for memory of every size.               *)
(*                                                                         *)
(* Positions count from 0.  A cell of mem is the id of the element there,  *)
(* or 0 if there is none (it was moved, or never written).                 *)
(***************************************************************************)
EXTENDS GenericVec, Memory

CONSTANTS MaxLen,  \* of the vector at first
          MaxCap,  \* of its storage
          Grows    \* how the storage grows: fixed, heap

VARIABLES mem, vlen, old, wf, rf, rb, wb, \* the algorithm
          s,                              \* the specification's state
          made,                           \* number of elements that were created
          gone,                           \* number of elements that were taken or dropped
          on                              \* there is a cursor
vars == <<mem, vlen, old, wf, rf, rb, wb, s, made, gone, on>>

Cap == Len(mem)
\* the counters of RawCursor
IsEmpty == rb = rf
IsWriteEmpty == wb = wf
WriteLen == wb - wf
WriteFrontLen == IF IsEmpty THEN WriteLen ELSE rf - wf
WriteBackLen == IF IsEmpty THEN WriteLen ELSE wb - rb
IsWriteFrontEmpty == IsWriteEmpty \/ (wf = rf /\ ~IsEmpty)
IsWriteBackEmpty == IsWriteEmpty \/ (wb = rb /\ ~IsEmpty)

(***************************************************************************)
(* The specification takes the same step                                   *)
(***************************************************************************)
E(op, a, nw) == [op |-> op, a |-> a, f |-> "-", fk |-> 0, nw |-> nw]

\* what a view of the specification is in memory
Fits_(v, m, o, w, r, q, b) ==
  /\ v.left = Cells(m, 0, w)
  /\ v.right = Cells(m, b, o)
  /\ v.mid = IF q = r THEN <<>> ELSE Cells(m, r, q)
  /\ v.gf + v.gb = (b - w) - (q - r)
  /\ q # r => v.gf = r - w /\ v.gb = b - q

Slots_(v, more) == [v EXCEPT !.gf = @ + more]

\* what the specification allows and the memory now holds
Refined(op, a, nw) ==
  {t \in {[s EXCEPT !.v = Slots_(o.v, IF o.vwc = "reserved" THEN (wb' - wf') - o.v.gf - o.v.gb ELSE 0)] :
             o \in {o \in Outcomes(s, E(op, a, nw), "own") : o.st = "ok"}} :
     Fits_(t.v, mem', old', wf', rf', rb', wb')}

Step(op, a, nw) ==
  LET R == Refined(op, a, nw) IN
  IF R = {} THEN Assert(FALSE, <<"not a step of the specification", op, a>>) ELSE s' \in R

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Init ==
  \E n \in 0..MaxLen : \E c \in {n, n + 1} :
    /\ mem = [i \in 1..c |-> IF i <= n THEN Id(i) ELSE 0]
    /\ vlen = n /\ old = n /\ made = n /\ gone = 0
    /\ wf = 0 /\ rf = 0 /\ rb = 0 /\ wb = 0 /\ on = FALSE
    /\ s = [Blank("own", "heap") EXCEPT !.gr = Grows, !.live = TRUE, !.made = TRUE, !.it = [i \in 1..n |-> Id(i)], !.cap = c]

New_ ==
  /\ ~on
  /\ \E i \in 0..vlen, j \in 0..vlen :
       /\ i <= j
       /\ old' = vlen /\ vlen' = i /\ wf' = i /\ rf' = i /\ rb' = j /\ wb' = j /\ on' = TRUE
       /\ LET q == s.it IN
          s' = [s EXCEPT !.it = <<>>, !.v = [NoView EXCEPT !.t = "rcursor", !.left = Take(q, i), !.mid = SubSeq(q, i + 1, j),
                                                          !.right = Skip(q, j), !.cap = s.cap]]
  /\ UNCHANGED <<mem, made, gone>>

Keep == UNCHANGED <<vlen, old, on>>

TakeFront ==
  /\ ~IsEmpty
  /\ mem' = Out_(mem, rf) /\ rf' = rf + 1 /\ gone' = gone + 1
  /\ Keep /\ UNCHANGED <<wf, rb, wb, made>>
  /\ Step("c_take_front", <<>>, <<>>)

TakeBack ==
  /\ ~IsEmpty
  /\ rb' = rb - 1 /\ mem' = Out_(mem, rb') /\ gone' = gone + 1
  /\ Keep /\ UNCHANGED <<wf, rf, wb, made>>
  /\ Step("c_take_back", <<>>, <<>>)

DropNFront(n) ==
  /\ n <= rb - rf
  /\ mem' = OutN(mem, rf, n) /\ rf' = rf + n /\ gone' = gone + n
  /\ Keep /\ UNCHANGED <<wf, rb, wb, made>>
  /\ Step("c_drop_n_front", <<n>>, <<>>)

DropNBack(n) ==
  /\ n <= rb - rf
  /\ rb' = rb - n /\ mem' = OutN(mem, rb', n) /\ gone' = gone + n
  /\ Keep /\ UNCHANGED <<wf, rf, wb, made>>
  /\ Step("c_drop_n_back", <<n>>, <<>>)

\* the second cell that is moved to may be the first that is moved: n = 1 does not overlap
SkipNFront(n) ==
  /\ n <= rb - rf
  /\ mem' = Copy(mem, wf, rf, n) /\ rf' = rf + n /\ wf' = wf + n
  /\ Keep /\ UNCHANGED <<rb, wb, made, gone>>
  /\ Step("c_skip_n_front", <<n>>, <<>>)

SkipNBack(n) ==
  /\ n <= rb - rf
  /\ rb' = rb - n /\ wb' = wb - n /\ mem' = Copy(mem, wb', rb', n)
  /\ Keep /\ UNCHANGED <<wf, rf, made, gone>>
  /\ Step("c_skip_n_back", <<n>>, <<>>)

Fresh(n) == [i \in 1..n |-> Id(made + i)]

WriteFront ==
  /\ ~IsWriteFrontEmpty
  /\ mem' = In_(mem, wf, Id(made + 1)) /\ wf' = wf + 1 /\ made' = made + 1
  /\ Keep /\ UNCHANGED <<rf, rb, wb, gone>>
  /\ Step("c_write_front", <<0>>, Fresh(1))

WriteBack ==
  /\ ~IsWriteBackEmpty
  /\ wb' = wb - 1 /\ mem' = In_(mem, wb', Id(made + 1)) /\ made' = made + 1
  /\ Keep /\ UNCHANGED <<wf, rf, rb, gone>>
  /\ Step("c_write_back", <<0>>, Fresh(1))

WriteSliceFront(n) ==
  /\ WriteFrontLen >= n
  /\ mem' = InN(mem, wf, Fresh(n)) /\ wf' = wf + n /\ made' = made + n
  /\ Keep /\ UNCHANGED <<rf, rb, wb, gone>>
  /\ Step("c_wslice_front", Times(0, n), Fresh(n))

WriteSliceBack(n) ==
  /\ WriteBackLen >= n
  /\ wb' = wb - n /\ mem' = InN(mem, wb', Fresh(n)) /\ made' = made + n
  /\ Keep /\ UNCHANGED <<wf, rf, rb, gone>>
  /\ Step("c_wslice_back", Times(0, n), Fresh(n))

Reserve_(space) ==
  /\ IsEmpty
  /\ LET front == wf  back == old - wb  len == front + back + space  more == space - WriteLen IN
     IF WriteLen >= space THEN UNCHANGED <<mem, vlen, old, wf, rf, rb, wb>>
     ELSE /\ len <= Cap \/ Grows = "heap"
          /\ \E c \in Cap..MaxCap :
               /\ c >= len /\ (len <= Cap => c = Cap)
               /\ LET m == mem \o Times(0, c - Cap) IN mem' = Copy(m, wb + more, wb, back)
          /\ vlen' = Min2(vlen, front)
          /\ wb' = wb + more /\ old' = old + more
          /\ UNCHANGED <<wf, rf, rb>>
  /\ UNCHANGED <<made, gone, on>>
  /\ Step("c_reserve", <<space>>, <<>>)

\* skip_n_front(len), then the gap is closed
Finished(m) ==
  LET n == rb - rf
      m2 == Copy(m, wf, rf, n)
      w == wf + n
      back == old - wb
      len == w + back
  IN /\ mem' = Copy(m2, w, wb, back)
     /\ vlen' = len /\ old' = len
     /\ wf' = w /\ rf' = w /\ rb' = w /\ wb' = w

Finish ==
  /\ IF old = 0 THEN UNCHANGED <<mem, vlen, old, wf, rf, rb, wb>> ELSE Finished(mem)
  /\ UNCHANGED <<made, gone, on>>
  /\ Step("c_finish", <<>>, <<>>)

\* the cursor is dropped
End ==
  /\ IF old = 0 THEN UNCHANGED <<mem, vlen, old, wf, rf, rb, wb>> ELSE Finished(mem)
  /\ on' = FALSE
  /\ UNCHANGED <<made, gone>>
  /\ \E o \in Outcomes(s, E("v_end", <<>>, <<>>), "own") :
       s' = [s EXCEPT !.v = NoView, !.it = o.it]

Next ==
  \/ New_
  \/ on /\ (TakeFront \/ TakeBack \/ Finish \/ End)
  \/ on /\ \E n \in 0..(rb - rf) : DropNFront(n) \/ DropNBack(n) \/ SkipNFront(n) \/ SkipNBack(n)
  \/ on /\ (WriteFront \/ WriteBack)
  \/ on /\ \E n \in 0..(wb - wf) : WriteSliceFront(n) \/ WriteSliceBack(n)
  \/ on /\ \E n \in 1..(MaxCap - wf - (old - wb)) : Reserve_(n)

Spec == Init /\ [][Next]_vars

\* The algorithm does not look at elements: states that only differ in which they are need no second look
Pattern == <<[i \in 1..Cap |-> mem[i] # 0], vlen, old, wf, rf, rb, wb, on, s.v.gf, s.v.gb>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
AllCells == {mem[i] : i \in 1..Cap} \ {0}
LiveCount == Cardinality({i \in 1..Cap : mem[i] # 0})

\* no element is in two places, none is lost, none comes back
Conserved == LiveCount = Cardinality(AllCells) /\ LiveCount + gone = made

\* the vector consists of elements, even if the cursor is leaked now
LeakSafe == vlen <= Cap /\ Live(mem, 0, vlen)

Ordered ==
  on => /\ 0 <= wf /\ wf <= wb /\ wb <= old /\ old <= Cap
        /\ rf <= rb
        /\ rf < rb => wf <= rf /\ rb <= wb

\* the memory holds what the specification says
Simulates == IF on THEN Fits_(s.v, mem, old, wf, rf, rb, wb) ELSE s.it = Cells(mem, 0, vlen)

\* and nothing else, in the end
Clean == ~on => Dead(mem, vlen, Cap)
=============================================================================
