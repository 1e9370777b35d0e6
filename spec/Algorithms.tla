----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* The algorithms of the operations that run user code, step by step: a    *)
(* callback, a clone or a destructor may panic at every one of them, and   *)
(* what then unwinds (guards, views, the vector) runs as it is written.    *)
(*                                                                         *)
(* TLC checks, for all vectors, arguments and panics within the bounds,    *)
(*  - that no element is overwritten, read where there is none, duplicated *)
(*    or dropped twice, and none is lost but where the specification says  *)
(*    so,                                                                  *)
(*  - that the algorithms refine GenericVec: what an operation leaves in   *)
(*    the memory, returns, drops and calls is one of its Outcomes.         *)
(*                                                                         *)
(* Clone number n of the element x is -(1000 n + x).                       *)
(***************************************************************************)
EXTENDS GenericVec, Memory

CONSTANTS MaxLen,  \* of the vector
          MaxNew,  \* number of elements that an operation adds
          Masks,   \* predicates: bit i says what the i-th call returns
          Buffer,  \* size of the buffer of splice, 0: it is on the heap (feature alloc)
          Grows    \* how the storage grows: fixed, heap

VARIABLES s,  \* the specification's state
          e,  \* the operation that runs
          r   \* the registers of the algorithm
vars == <<s, e, r>>

Cap == Len(r.mem)
Clone(x, n) == -(1000 * n + x)
\* a clone, as the specification calls it
Name(x) == IF x < 0 THEN -((-x) % 1000) ELSE x
Names(q) == [i \in 1..Len(q) |-> Name(q[i])]

\* mem, vlen : the vector
\* pc        : what is to be done next; st: how the operation ends
\* old, wf, rf, rb, wb : the cursor
\* i, j      : positions; n: a number of elements
\* buf       : elements in a buffer or in local variables
\* ret, dr, cl, made, born : what was returned, dropped, called, created, cloned
\* calls     : number of calls of a filter, since it was made; pan: it panicked
\* nc, nk, nd: number of callbacks, clones and drops during the operation
Idle == [mem |-> <<>>, vlen |-> 0, pc |-> "user", st |-> "ok", old |-> 0, wf |-> 0, rf |-> 0, rb |-> 0, wb |-> 0,
         i |-> 0, j |-> 0, n |-> 0, buf |-> <<>>, ret |-> <<>>, dr |-> <<>>, cl |-> <<>>, made |-> <<>>, born |-> <<>>,
         calls |-> 0, pan |-> FALSE, nc |-> 0, nk |-> 0, nd |-> 0, own |-> {}, total |-> 0]

Range_(q) == {q[i] : i \in 1..Len(q)}
LiveCells(m) == {m[i] : i \in 1..Len(m)} \ {0}

(***************************************************************************)
(* Events, each of which may panic                                         *)
(***************************************************************************)
Inj(f, n) == e.f = f /\ e.fk = n

\* a callback that is told x: goes on at ok, or unwinds at bad
Call(q, x, ok, bad) ==
  LET q1 == [q EXCEPT !.cl = @ \o x, !.nc = @ + 1] IN
  IF Inj("p", q1.nc) THEN [q1 EXCEPT !.st = "inj", !.pc = bad] ELSE [q1 EXCEPT !.pc = ok]

\* creates an element, which goes to the buffer
Make(q) ==
  LET x == Id(q.total + 1) IN [q EXCEPT !.made = Append(@, x), !.total = @ + 1, !.buf = Append(@, x), !.own = @ \cup {x}]

\* clones x into the buffer
CloneOf(q, x, ok, bad) ==
  LET q1 == [q EXCEPT !.nk = @ + 1] IN
  IF Inj("c", q1.nk) THEN [q1 EXCEPT !.st = "inj", !.pc = bad]
  ELSE LET y == Clone(x, Len(q.born) + 1) IN
       [q1 EXCEPT !.born = Append(@, y), !.buf = Append(@, y), !.own = @ \cup {y}, !.pc = ok]

\* the elements of x are dropped in order; if one panics the others are dropped nevertheless, unless this happens
\* while another panic unwinds: then the process aborts, and nothing is promised
Dropped(q, x, ok, bad) ==
  LET hit == e.f = "d" /\ e.fk > q.nd /\ e.fk <= q.nd + Len(x)
      q1 == [q EXCEPT !.dr = @ \o x, !.nd = @ + Len(x)]
  IN IF hit /\ q.st \in {"inj", "panic"} THEN [q1 EXCEPT !.pc = "abort"]
     ELSE IF hit THEN [q1 EXCEPT !.st = "inj", !.pc = bad] ELSE [q1 EXCEPT !.pc = ok]

DropCells(q, i, j, ok, bad) ==
  Dropped([q EXCEPT !.mem = OutN(q.mem, i, j - i)], Cells(q.mem, i, j), ok, bad)

DropBuf(q, ok, bad) == Dropped([q EXCEPT !.buf = <<>>], q.buf, ok, bad)

\* the elements of the buffer go to the cells from i on
Put(q, i) == [q EXCEPT !.mem = InN(q.mem, i, q.buf), !.buf = <<>>]

Goto(q, pc) == [q EXCEPT !.pc = pc]
Panic(q, pc) == [q EXCEPT !.pc = pc, !.st = "panic"]

Fit(q, need) == need <= Len(q.mem) \/ Grows = "heap"
Grown(q, need) ==
  IF need <= Len(q.mem) THEN q
  ELSE [q EXCEPT !.mem = @ \o Times(0, Max2(need, 2 * Len(@)) - Len(@))]

(***************************************************************************)
(* Cursors, see RawCursor                                                  *)
(***************************************************************************)
Opened(q, i, j) == [q EXCEPT !.old = q.vlen, !.vlen = i, !.wf = i, !.rf = i, !.rb = j, !.wb = j]
TakeFront(q) == [q EXCEPT !.mem = Out_(@, q.rf), !.buf = Append(@, At(q.mem, q.rf)), !.rf = @ + 1]
TakeBack(q) == [q EXCEPT !.mem = Out_(@, q.rb - 1), !.buf = Append(@, At(q.mem, q.rb - 1)), !.rb = @ - 1]
SkipFront(q) == [q EXCEPT !.mem = Copy(@, q.wf, q.rf, 1), !.rf = @ + 1, !.wf = @ + 1]
SkipBack(q) == [q EXCEPT !.mem = Copy(@, q.wb - 1, q.rb - 1, 1), !.rb = @ - 1, !.wb = @ - 1]
DropRest(q, ok, bad) == DropCells([q EXCEPT !.rf = q.rb], q.rf, q.rb, ok, bad)

\* the cursor is dropped
Closed_(q) ==
  IF q.old = 0 THEN q
  ELSE LET n == q.rb - q.rf
           m == Copy(q.mem, q.wf, q.rf, n)
           w == q.wf + n
           back == q.old - q.wb
       IN [q EXCEPT !.mem = Copy(m, w, q.wb, back), !.vlen = w + back, !.old = w + back,
                    !.wf = w, !.rf = w, !.rb = w, !.wb = w]

\* room for n more in the gap
CanReserve(q, n) == q.wb - q.wf >= n \/ Fit(q, q.wf + (q.old - q.wb) + n)
Reserved(q, n) ==
  IF q.wb - q.wf >= n THEN q
  ELSE LET more == n - (q.wb - q.wf)
           g == Grown(q, q.wf + (q.old - q.wb) + n)
       IN [g EXCEPT !.mem = Copy(@, q.wb + more, q.wb, q.old - q.wb), !.wb = @ + more, !.old = @ + more]
WriteBuf(q) == [Put(q, q.wf) EXCEPT !.wf = @ + Len(q.buf)]

(***************************************************************************)
(* The operations                                                          *)
(***************************************************************************)
Arg(i) == e.a[i]

\* makes all the elements of the arguments
RECURSIVE MakeN(_, _)
MakeN(q, n) == IF n = 0 THEN q ELSE MakeN(Make(q), n - 1)

Begin(q) ==
  LET op == e.op  n == q.vlen IN
  CASE op = "push" ->
         LET m == Make(q) IN
         IF Fit(m, n + 1) THEN [Put(Grown(m, n + 1), n) EXCEPT !.vlen = n + 1, !.pc = "done"]
         ELSE DropBuf([m EXCEPT !.st = "panic"], "done", "done")
    [] op = "insert" ->
         LET m == Make(q)  i == Arg(1) IN
         IF i <= n /\ Fit(m, n + 1)
         THEN LET g == Grown(m, n + 1) IN
              [Put([g EXCEPT !.mem = Copy(@, i + 1, i, n - i)], i) EXCEPT !.vlen = n + 1, !.pc = "done"]
         ELSE DropBuf([m EXCEPT !.st = "panic"], "done", "done")
    [] op = "remove" ->
         LET i == Arg(1) IN
         IF i >= n THEN Panic(q, "done")
         ELSE [q EXCEPT !.ret = <<At(q.mem, i)>>, !.mem = Copy(Out_(@, i), i, i + 1, n - i - 1), !.vlen = n - 1, !.pc = "done"]
    [] op = "swap_remove" ->
         LET i == Arg(1) IN
         IF i >= n THEN Panic(q, "done")
         ELSE [q EXCEPT !.ret = <<At(q.mem, i)>>, !.mem = LET m == Out_(@, i) IN IF i = n - 1 THEN m ELSE Copy(m, i, n - 1, 1),
                        !.vlen = n - 1, !.pc = "done"]
    [] op = "truncate" -> Goto([q EXCEPT !.n = Arg(1)], "truncate")
    [] op = "grow_with" -> IF Fit(q, n + Arg(1)) THEN Goto(Grown(q, n + Arg(1)), "grow_with") ELSE Panic(q, "done")
    [] op = "grow" ->
         LET m == Make(q) IN
         IF ~Fit(m, n + Arg(1)) THEN DropBuf([m EXCEPT !.st = "panic"], "done", "done")
         \* the value is in a local variable
         ELSE LET g == Grown(m, n + Arg(1)) IN
              IF Arg(1) = 0 THEN DropBuf(g, "done", "done") ELSE Goto([g EXCEPT !.n = g.buf[1], !.buf = <<>>], "grow")
    [] op = "efs" ->
         LET m == [MakeN(q, Len(e.a)) EXCEPT !.buf = <<>>] IN Goto([m EXCEPT !.n = 0], "efs")
    [] op = "clone_from" ->
         LET m == [MakeN(q, Len(e.a)) EXCEPT !.buf = <<>>] IN Goto([m EXCEPT !.n = Len(e.a)], "truncate")
    [] op = "extend" -> Goto([q EXCEPT !.n = Len(e.a) - 1], "extend")
    [] op = "retain" -> Goto([Opened(q, 0, n) EXCEPT !.calls = 0], "filter_end")
    [] op = "dedup_by" -> Goto([q EXCEPT !.i = 1, !.j = 1], IF n <= 1 THEN "done" ELSE "dedup")
    \* views
    [] op \in {"drain", "dfilter", "splice"} -> [Opened(q, Arg(2), Arg(4)) EXCEPT !.calls = 0, !.pan = FALSE, !.pc = "done"]
    [] op = "into_iter" -> [q EXCEPT !.i = 0, !.pc = "done"]
    [] op = "v_next" -> Goto([q EXCEPT !.n = 0], "front")
    [] op = "v_next_back" -> Goto([q EXCEPT !.n = 0], "back")
    [] op = "v_nth" -> Goto([q EXCEPT !.n = Arg(1)], IF s.v.t = "into" THEN "into_nth" ELSE "front")
    [] op = "v_nth_back" -> Goto([q EXCEPT !.n = Arg(1)], "back")
    [] op = "v_end" ->
         CASE s.v.t = "drain" -> DropRest(q, "close", "close")
           [] s.v.t = "dfilter" -> Goto(q, IF q.pan THEN "close" ELSE "filter_end")
           [] s.v.t = "splice" -> DropRest([q EXCEPT !.n = Len(s.v.a) - 5], "splice", "close")
           [] s.v.t = "into" -> [DropCells(q, q.i, q.vlen, "done", "done") EXCEPT !.vlen = 0]

\* an element left a view: n more are dropped before one is returned
Yield(q, again) ==
  IF q.n = 0 THEN [q EXCEPT !.ret = q.buf, !.buf = <<>>, !.pc = "done"]
  ELSE DropBuf([q EXCEPT !.n = @ - 1], again, "done")
None(q) == [q EXCEPT !.st = "none", !.pc = "done"]

\* the predicate of a filter about the cell i, at its next call
Asked(q, i, ok) ==
  LET c == Call(q, <<At(q.mem, i)>>, ok, "asked") IN
  IF c.st = "inj" THEN [c EXCEPT !.pan = TRUE] ELSE [c EXCEPT !.calls = @ + 1]
Take_(mask, q) == Bit(mask, q.calls - 1)

\* a source is pulled: it makes an element, or is at its end
Pulled(q, ok, bad) ==
  LET c == Call(q, <<1>>, ok, bad) IN IF c.st = "inj" THEN c ELSE [Make(c) EXCEPT !.n = @ - 1]
AtEnd(q, ok, bad) ==
  LET c == Call(q, <<0>>, ok, bad) IN c

\* one step
Micro(q) ==
  LET n == q.vlen IN
  CASE q.pc = "begin" -> Begin(q)
    \* truncate: the length is set before the elements are dropped
    [] q.pc = "truncate" ->
         LET ok == IF e.op = "clone_from" THEN "replace" ELSE "done" IN
         IF q.n >= n THEN Goto([q EXCEPT !.i = 0], ok)
         ELSE DropCells([q EXCEPT !.vlen = q.n, !.i = 0], q.n, n, ok, "done")
    \* grow_with: the new elements are the spare capacity's until all of them are there
    [] q.pc = "grow_with" ->
         IF q.i = Arg(1) THEN [q EXCEPT !.vlen = n + q.i, !.pc = "done"]
         ELSE LET c == Call(q, <<1>>, "grow_with", "unspare") IN
              IF c.st = "inj" THEN c ELSE [Put(Make(c), n + q.i) EXCEPT !.i = @ + 1]
    \* grow: n is the value, of which clones are made
    [] q.pc = "grow" ->
         IF q.i = Arg(1) - 1 THEN [Put([q EXCEPT !.buf = <<q.n>>], n + q.i) EXCEPT !.vlen = n + q.i + 1, !.pc = "done"]
         ELSE LET c == CloneOf(q, q.n, "grow", "unspare") IN
              IF c.st = "inj" THEN c ELSE [Put(c, n + q.i) EXCEPT !.i = @ + 1]
    \* the spare capacity is dropped, then a local variable
    [] q.pc = "unspare" ->
         LET d == DropCells(q, n, n + q.i, "done", "done") IN
         IF e.op = "grow" THEN Dropped([d EXCEPT !.n = 0], <<q.n>>, "done", "done") ELSE d
    [] q.pc = "efs" ->
         LET from == q.n  m == Len(q.made) - from IN
         IF q.i = 0 /\ ~Fit(q, n + m) THEN Panic(q, "done")
         ELSE LET g == Grown(q, n + m) IN
              IF q.i = m THEN [g EXCEPT !.vlen = n + m, !.pc = "done"]
              ELSE LET c == CloneOf(g, g.made[from + g.i + 1], "efs", "unspare") IN
                   IF c.st = "inj" THEN c ELSE [Put(c, n + q.i) EXCEPT !.i = @ + 1]
    \* clone_from: elements are replaced; the old one is dropped after the clone was made, and the clone put in
    \* its place even if that panics
    [] q.pc = "replace" ->
         IF q.i = n THEN Goto([q EXCEPT !.n = q.i, !.i = 0], "efs")
         ELSE LET c == CloneOf(q, q.made[q.i + 1], "replace", "done") IN
              IF c.st = "inj" THEN c
              ELSE LET d == DropCells([c EXCEPT !.buf = <<>>], q.i, q.i + 1, "replace", "done") IN
                   [Put([d EXCEPT !.buf = c.buf], q.i) EXCEPT !.i = @ + 1]
    \* extend
    [] q.pc = "extend" ->
         IF q.n = 0 THEN AtEnd(q, "done", "done") ELSE Pulled(q, "extend_push", "done")
    [] q.pc = "extend_push" ->
         IF Fit(q, n + 1) THEN [Put(Grown(q, n + 1), n) EXCEPT !.vlen = n + 1, !.pc = "extend"]
         ELSE DropBuf([q EXCEPT !.st = "panic"], "done", "done")
    \* dedup_by: i is read, what is before j is kept
    [] q.pc = "dedup" ->
         IF q.i = n THEN Goto([q EXCEPT !.n = q.j], "truncate")
         ELSE LET x == At(q.mem, q.i)  y == At(q.mem, q.j - 1)
                  c == Call(q, <<x, y>>, "dedup", "done")
              IN IF c.st = "inj" THEN c
                 ELSE IF Related(Arg(1), Arg(2), x, y, q.nc) THEN [c EXCEPT !.i = @ + 1]
                 ELSE [c EXCEPT !.mem = IF q.i = q.j THEN @ ELSE [@ EXCEPT ![q.i + 1] = At(q.mem, q.j), ![q.j + 1] = x],
                                !.i = @ + 1, !.j = @ + 1]
    \* the drop of DrainFilter, and retain
    [] q.pc = "filter_end" ->
         IF q.rf = q.rb THEN Goto(q, "close") ELSE Asked(q, q.rf, "filter_do")
    [] q.pc = "filter_do" ->
         LET take == IF e.op = "retain" THEN ~Take_(Arg(2), q) ELSE Take_(s.v.a[6], q) IN
         IF take THEN DropBuf(TakeFront(q), "filter_end", "close") ELSE Goto(SkipFront(q), "filter_end")
    [] q.pc = "close" -> Goto(Closed_(q), "done")
    [] q.pc = "asked" -> Goto(q, IF e.op \in {"retain", "v_end"} THEN "close" ELSE "done")
    \* iterators
    [] q.pc = "front" ->
         CASE s.v.t = "into" ->
                IF q.i = n THEN None(q)
                ELSE [q EXCEPT !.ret = <<At(q.mem, q.i)>>, !.mem = Out_(@, q.i), !.i = @ + 1, !.pc = "done"]
           [] s.v.t = "dfilter" -> IF q.rf = q.rb THEN None(q) ELSE Asked(q, q.rf, "front_do")
           [] OTHER -> IF q.rf = q.rb THEN None(q) ELSE Yield(TakeFront(q), "front")
    [] q.pc = "front_do" ->
         IF Take_(s.v.a[6], q) THEN Yield(TakeFront(q), "front") ELSE Goto(SkipFront(q), "front")
    [] q.pc = "back" ->
         CASE s.v.t = "into" ->
                IF q.i = n THEN None(q)
                ELSE Yield([q EXCEPT !.buf = <<At(q.mem, n - 1)>>, !.mem = Out_(@, n - 1), !.vlen = n - 1], "back")
           [] s.v.t = "dfilter" -> IF q.rf = q.rb THEN None(q) ELSE Asked(q, q.rb - 1, "back_do")
           [] OTHER -> IF q.rf = q.rb THEN None(q) ELSE Yield(TakeBack(q), "back")
    [] q.pc = "back_do" ->
         IF Take_(s.v.a[6], q) THEN Yield(TakeBack(q), "back") ELSE Goto(SkipBack(q), "back")
    \* IntoIter::nth: the index passes the elements before they are dropped
    [] q.pc = "into_nth" ->
         LET m == Min2(q.n, n - q.i) IN
         DropCells([q EXCEPT !.i = @ + m], q.i, q.i + m, "front", "done")
    \* the drop of Splice: n elements are still to come
    [] q.pc = "splice" ->
         IF q.old = q.wb /\ q.old = q.wf THEN Goto([Closed_(q) EXCEPT !.old = 0], "extend") ELSE Goto(q, "splice_gap")
    [] q.pc = "splice_gap" ->
         IF q.wb = q.wf THEN Goto(q, "splice_more")
         ELSE IF q.n = 0 THEN AtEnd(q, "close", "close")
         ELSE LET c == Pulled(q, "splice_gap", "close") IN IF c.st = "inj" THEN c ELSE WriteBuf(c)
    [] q.pc = "splice_more" ->
         IF q.n = 0 THEN AtEnd(q, "splice_flush", "splice_lost")
         ELSE LET c == Pulled(q, "splice_more", "splice_lost") IN
              IF Len(c.buf) = Buffer /\ Buffer > 0 /\ c.st # "inj" THEN Goto(c, "splice_full") ELSE c
    [] q.pc \in {"splice_full", "splice_flush"} ->
         LET m == Len(q.buf) IN
         IF ~CanReserve(q, m) THEN Panic(q, "splice_lost")
         ELSE Goto(WriteBuf(Reserved(q, m)), IF q.pc = "splice_full" THEN "splice_more" ELSE "close")
    [] q.pc = "splice_lost" -> DropBuf(q, "close", "close")

(***************************************************************************)
(* The specification                                                       *)
(***************************************************************************)
\* what the view of the specification is in memory
Fits_(v, q) ==
  IF v.t = "into" THEN v.mid = Cells(q.mem, q.i, q.vlen)
  ELSE /\ v.left = Cells(q.mem, 0, q.wf)
       /\ v.right = Cells(q.mem, q.wb, q.old)
       /\ v.mid = IF q.rf = q.rb THEN <<>> ELSE Cells(q.mem, q.rf, q.rb)
       /\ v.gf + v.gb = (q.wb - q.wf) - (q.rb - q.rf)
       /\ v.t = "dfilter" => v.pan = q.pan /\ v.calls = q.calls

IsPrefix_(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
CallOk(c, o) ==
  \/ o.cl = <<ANY>>
  \/ c = o.cl
  \/ o.clp /\ IsPrefix_(c, o.cl)
  \/ o.clz /\ c = SubSeq(o.cl, 1, Len(o.cl) - 1)

\* where the elements are that nobody dropped
Held(q) == LiveCells(q.mem) \cup Range_(q.ret) \cup Range_(q.buf)
View(q, o) ==
  IF o.v.t = "none" THEN LiveCells(Cells(q.mem, 0, q.vlen))
  ELSE IF o.v.t = "into" THEN LiveCells(Cells(q.mem, q.i, q.vlen))
  ELSE LiveCells(Cells(q.mem, 0, q.old))

Matches(o, q) ==
  /\ o.st = q.st
  /\ IF o.v.t = "none"
     THEN /\ Live(q.mem, 0, q.vlen)
          /\ IF o.perm THEN TRUE ELSE Names(Cells(q.mem, 0, q.vlen)) = o.it
     ELSE Fits_(o.v, q)
  /\ o.st \in {"ok", "none"} => Names(q.ret) = o.ret
  /\ CallOk(q.cl, o)
  /\ o.nn < 0 \/ Len(q.made) = o.nn
  /\ o.bn < 0 \/ Len(q.born) = o.bn
  \* every element is in one place, or was dropped once
  /\ Range_(q.dr) \cap Held(q) = {}
  /\ Cardinality(Range_(q.dr)) = Len(q.dr)
  /\ LiveCells(q.mem) = View(q, o) \/ o.lost
  /\ LET all == (q.own \ IF o.kept THEN Range_(q.made) ELSE {}) IN
     /\ Held(q) \cup Range_(q.dr) \subseteq all
     /\ o.lost \/ Held(q) \cup Range_(q.dr) = all
     /\ q.buf = <<>>

Event(q) == [op |-> e.op, a |-> e.a, f |-> e.f, fk |-> e.fk, nw |-> q.made]

\* the operation is over
Return ==
  /\ r.pc = "done"
  /\ LET R == {o \in Outcomes(s, Event(r), "own") : Matches(o, r)} IN
     IF R = {} THEN Assert(FALSE, <<"not an outcome of the specification", e, r, Outcomes(s, Event(r), "own")>>)
     ELSE \E o \in R :
            /\ s' = IF o.v.t = "none" THEN [s EXCEPT !.v = NoView, !.it = <<>>, !.live = FALSE]
                    ELSE [s EXCEPT !.it = <<>>, !.v = o.v, !.live = o.live]
            /\ r' = [r EXCEPT !.pc = IF o.v.t = "none" THEN "end" ELSE "user", !.st = "ok", !.buf = <<>>, !.ret = <<>>,
                              !.dr = <<>>, !.cl = <<>>, !.made = <<>>, !.born = <<>>, !.nc = 0, !.nk = 0, !.nd = 0,
                              !.own = LiveCells(r.mem)]
  /\ UNCHANGED e

NoOp == [op |-> "-", a |-> <<>>, f |-> "-", fk |-> 0]

Init ==
  \E n \in 0..MaxLen : \E c \in {n, n + 1} :
    /\ r = [Idle EXCEPT !.mem = [i \in 1..c |-> IF i <= n THEN Id(i) ELSE 0], !.vlen = n, !.own = {Id(i) : i \in 1..n},
                        !.total = n]
    /\ s = [Blank("own", "heap") EXCEPT !.gr = Grows, !.live = TRUE, !.made = TRUE, !.it = [i \in 1..n |-> Id(i)], !.cap = c]
    /\ e = NoOp

Faults(fs) == {<<"-", 0>>} \cup {<<f, k>> : f \in fs, k \in 1..(MaxLen + MaxNew + 1)}

Do(op, a, fs) ==
  /\ \E f \in Faults(fs) : e' = [op |-> op, a |-> a, f |-> f[1], fk |-> f[2]]
  /\ r' = [r EXCEPT !.pc = "begin"]
  /\ UNCHANGED s

Begins ==
  /\ r.pc = "user" /\ s.v.t = "none"
  /\ \/ Do("push", <<0>>, {})
     \/ \E i \in 0..(r.vlen + 1) : Do("insert", <<i, 0>>, {}) \/ Do("remove", <<i>>, {}) \/ Do("swap_remove", <<i>>, {})
                                   \/ Do("truncate", <<i>>, {"d"})
     \/ \E n \in 0..MaxNew : \/ Do("grow_with", <<n>>, {"p"})
                             \/ Do("grow", <<n, 0>>, {"c"})
                             \/ Do("efs", Times(0, n), {"c"})
                             \/ Do("clone_from", Times(0, n), {"c", "d"})
                             \/ Do("extend", <<0>> \o Times(0, n), {"p"})
     \/ \E mask \in Masks : Do("retain", <<1, mask>>, {"p", "d"}) \/ Do("dedup_by", <<1, mask>>, {"p", "d"})
     \/ \E i \in 0..r.vlen : \E j \in i..r.vlen :
          LET range == <<1, i, 2, j>> IN
          \/ Do("drain", range, {})
          \/ \E mask \in Masks : Do("dfilter", range \o <<1, mask>>, {})
          \/ \E n \in 0..MaxNew : Do("splice", range \o <<0>> \o Times(0, n), {})
     \/ Do("into_iter", <<>>, {})

Advance ==
  /\ r.pc = "user" /\ s.v.t # "none"
  /\ LET fs == IF s.v.t = "dfilter" THEN {"p", "d"} ELSE {"d"} IN
     \/ Do("v_next", <<>>, fs) \/ Do("v_next_back", <<>>, fs)
     \/ \E n \in 1..2 : Do("v_nth", <<n>>, fs) \/ Do("v_nth_back", <<n>>, fs)
     \/ Do("v_end", <<>>, IF s.v.t \in {"dfilter", "splice"} THEN {"p", "d"} ELSE {"d"})

Step_ ==
  /\ r.pc \notin {"user", "done", "end", "abort"}
  /\ r' = Micro(r)
  /\ UNCHANGED <<s, e>>

Next == Begins \/ Advance \/ Step_ \/ Return
Spec == Init /\ [][Next]_vars

\* always: no element is in two places, or was dropped and is still there
AllHeld == [i \in 1..Len(r.mem) |-> r.mem[i]] \o r.buf \o r.ret
Once ==
  LET q == SelectSeq(AllHeld, LAMBDA x : x # 0) IN
  /\ Cardinality(Range_(q)) = Len(q)
  /\ Range_(q) \cap Range_(r.dr) = {}
  /\ Cardinality(Range_(r.dr)) = Len(r.dr)
=============================================================================
