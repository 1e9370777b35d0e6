------------------------------- MODULE TraceGV -------------------------------
(***************************************************************************)
(* Trace validation: are the executions that the harness recorded          *)
(* behaviours of the specification GenericVec?                             *)
(*                                                                         *)
(* Every recorded execution is an initial state; every event is one step,  *)
(* and it is a step of the specification if one of Outcomes(s, e) agrees   *)
(* with everything that was recorded.  Otherwise the disagreements with    *)
(* the closest outcome are printed, and validation goes on from what was   *)
(* observed if the contents are still those of the specification.          *)
(*                                                                         *)
(* In the state, tr is the number of the execution, l the next event, s    *)
(* the specification's state.                                              *)
(***************************************************************************)
EXTENDS GenericVec, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, s
vars == <<tr, l, s>>

(***************************************************************************)
(* What the elements of an outcome are in the execution                    *)
(***************************************************************************)
Pairs(e) == {<<e.bn[2 * i - 1], e.bn[2 * i]>> : i \in 1..(Len(e.bn) \div 2)}
Born(e) == [i \in 1..(Len(e.bn) \div 2) |-> e.bn[2 * i - 1]]

\* y was observed where x is expected
Is(z, e, x, y) ==
  \/ y = x
  \/ x = Unknown
  \/ x < 0 /\ (IF z.k = "own" THEN <<y, -x>> \in Pairs(e) ELSE y = -x)

Same(z, e, q, r) == Len(q) = Len(r) /\ \A i \in 1..Len(q) : Is(z, e, q[i], r[i])

Serial(x) == x \div 8
Range_(q) == {q[i] : i \in 1..Len(q)}
Serials(q) == {Serial(q[i]) : i \in 1..Len(q)}
Distinct(q) == Cardinality(Serials(q)) = Len(q)

IsPrefix_(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))

(***************************************************************************)
(* Disagreements between an outcome and an event                           *)
(***************************************************************************)
ViewItems(o) == o.v.left \o o.v.mid \o o.v.right

\* everything that is somewhere after the event
After_(o, e) == e.it \o ViewItems(o) \o e.bi

\* the elements the event may have dropped
Involved(z, e) == Owned(z) \o e.nw \o Born(e)

\* every element is in one place, or was dropped once
Ledger(z, e, o) ==
  LET kept == IF o.kept THEN e.nw ELSE <<>>
      own == IF o.rown THEN e.ret ELSE <<>>
      stay == After_(o, e) \o own \o kept
  IN
  CASE IsCopy(z) -> e.dr = <<>>
    [] IsZst(z) ->
       LET n == Len(Involved(z, e)) - Len(stay) IN IF o.lost THEN Len(e.dr) <= n ELSE Len(e.dr) = n
    [] OTHER ->
       LET before == Serials(Involved(z, e))
           gone == before \ Serials(stay)
       IN /\ Distinct(e.dr)
          /\ Serials(e.dr) \subseteq gone
          /\ (o.lost \/ gone \subseteq Serials(e.dr))
          /\ Distinct(stay)
          /\ Serials(stay) \subseteq before

NewOk(z, e, o) ==
  /\ o.nn < 0 \/ Len(e.nw) = o.nn
  /\ LET keys == NewKeys(z, e) IN
     /\ Len(e.nw) <= Len(keys)
     /\ IsZst(z) \/ \A j \in 1..Len(e.nw) : Key(e.nw[j]) = keys[j]

CallOk(e, o) ==
  \/ o.cl = <<ANY>>
  \/ e.cl = o.cl
  \/ o.clp /\ IsPrefix_(e.cl, o.cl)
  \/ o.clz /\ e.cl = SubSeq(o.cl, 1, Len(o.cl) - 1)

RefOk(z, e, o) ==
  CASE o.rf = -2 -> TRUE
    [] o.rf = -1 \/ IsZst(z) -> e.rf = <<>>
    [] OTHER -> Len(e.rf) = 2 /\ e.rf[1] = o.rf /\ o.rf < Len(e.it) /\ e.rf[2] = e.it[o.rf + 1]

NumOk(e, o) ==
  CASE o.n = ANY -> TRUE
    [] o.n <= -1000 -> e.n >= -(o.n) - 1000
    [] OTHER -> e.n = o.n

\* the capacity is reported
HasCap(o) == o.live /\ o.v.t = "none"

Quiet(o) == o.st \in {"ok", "err", "none", "skip"}

CapOk(z, e, o) ==
  IF ~HasCap(o) THEN e.cap = -1
  ELSE CASE o.cap = "any" -> e.cap >= Len(e.it)
         [] z.gr = "zst" -> e.cap = Unlimited
         [] o.cap = "new" -> IF z.gr = "fixed" THEN e.cap = z.cap \/ ~z.live ELSE e.cap >= Max2(o.need, Len(e.it))
         [] z.gr = "fixed" -> e.cap = z.cap
         [] o.cap = "norm" /\ o.need <= z.cap -> e.cap = z.cap
         [] o.cap = "free" /\ e.cap = z.cap -> o.need <= z.cap
         [] OTHER -> e.cap >= Max2(o.need, Len(e.it)) /\ e.cap >= z.cap /\ (z.gr = "heap" => e.cap >= 2 * z.cap)

\* The capacity of a new fixed storage is known
NewCapOk(z, e, o, cap) == ~(HasCap(o) /\ o.cap = "new" /\ ~z.live /\ z.gr = "fixed") \/ e.cap = cap

MoveOk(z, e, o) ==
  \/ ~HasCap(o) \/ e.mv = 0
  \/ o.cap \in {"new", "any"}
  \/ e.cap # z.cap

RoomOk(z, e, o) ==
  ~HasCap(o) \/ z.gr # "heap" \/ e.cap = 0 \/ e.room >= e.cap

AllocOk(z, e, o) ==
  IF ~Quiet(o) THEN TRUE
  ELSE CASE o.al = "any" -> TRUE
         [] o.al = "try" -> e.nr = 0 /\ e.na = e.nd
         [] o.al = "grow" -> z.gr \in {"heap", "user"} \/ (e.na = 0 /\ e.nr = 0 /\ e.nd = 0)
         [] OTHER -> (o.need > z.cap /\ z.gr \in {"heap", "user"}) \/ (e.na = 0 /\ e.nr = 0 /\ e.nd = 0)

\* the position up to which a storage was used
UsedOk(z, e, o) == e.hw = -1 \/ e.hw <= Max2(z.hw, o.ext)

PeerOk(z, e, o) ==
  /\ Same(z, e, o.b.it, e.bi)
  /\ IF ~o.b.on THEN e.bc = -1
     ELSE CASE o.b.gr = "zst" -> e.bc = Unlimited
            [] o.b.gr = "fixed" -> e.bc = o.b.cap
            [] ~z.b.on -> e.bc >= o.bneed
            [] o.bneed <= z.b.cap -> e.bc = z.b.cap
            [] OTHER -> e.bc >= o.bneed /\ e.bc >= 2 * z.b.cap

\* how many elements a DrainFilter will yield if it is advanced from the front only
Yields(z, v) == IF v.pan THEN 0 ELSE Len(Visit(z, v.mid, v.a[5], v.a[6], v.calls).yes)

\* Gaps are only known through the counters
Gap(e) == IF Len(e.vw) >= 3 THEN e.vw[3] ELSE 0
Widened(o, e) == IF o.vwc = "reserved" THEN [o.v EXCEPT !.gf = Max2(@, Gap(e) - o.v.gb)] ELSE o.v

ViewOk(z, e, o) ==
  LET v == o.v  n == Len(v.mid) IN
  CASE o.v.t = "none" /\ o.vwc # "exact" -> e.vw = <<>>
    [] o.vwc = "exact" -> Same(z, e, o.vw, e.vw)
    [] o.vwc = "reserved" -> e.vw = CursorCounters(Widened(o, e))
    [] o.vwc \in {"cursor", "rcursor"} -> e.vw = CursorCounters(v)
    [] o.vwc \in {"drain", "splice"} -> e.vw = <<n, n, n>>
    [] o.vwc = "into" -> e.vw = <<n, n, n>> \o v.mid
    [] o.vwc = "dfilter" ->
       Len(e.vw) = 2 /\ e.vw[1] <= Yields(z, v) /\ (e.vw[2] = -1 \/ Yields(z, v) <= e.vw[2])
    [] o.vwc = "spare" -> e.vw = <<IF IsZst(z) THEN Unlimited ELSE v.cap - Len(v.left)>> \o v.mid
    [] OTHER -> FALSE

\* contents that are not determined: elements that were involved, each once
ItemsOk(z, e, o) ==
  IF o.v.t # "none" THEN e.open = 1 /\ e.it = <<>>
  ELSE /\ e.open = 0
       /\ IF ~o.perm THEN Same(z, e, o.it, e.it)
          ELSE IF IsZst(z) THEN Len(e.it) <= Len(Involved(z, e))
          ELSE IF z.k = "copy" THEN Range_(e.it) \subseteq Range_(Involved(z, e))
          ELSE Distinct(e.it) /\ Serials(e.it) \subseteq Serials(Involved(z, e))

If(name, b) == IF b THEN {} ELSE {name}

Hard(z, e, o) ==
  If("st", e.st = o.st) \cup If("it", ItemsOk(z, e, o)) \cup If("peer", PeerOk(z, e, o))

Soft(z, e, o) ==
  If("ret", Same(z, e, o.ret, e.ret))
  \cup If("rf", RefOk(z, e, o))
  \cup If("n", NumOk(e, o))
  \cup If("new", NewOk(z, e, o))
  \cup If("call", CallOk(e, o))
  \cup If("clone", o.bn < 0 \/ Len(e.bn) = 2 * o.bn)
  \cup If("vw", ViewOk(z, e, o))
  \cup If("drop", Ledger(z, e, o))
  \cup If("cap", CapOk(z, e, o) /\ NewCapOk(z, e, o, HostCap(z.h, Traces[tr].k, CreateSize(z, e))))
  \cup If("mv", MoveOk(z, e, o))
  \cup If("room", RoomOk(z, e, o))
  \cup If("alloc", AllocOk(z, e, o))
  \cup If("used", UsedOk(z, e, o))
  \cup If("heap", e.ab = 0)
  \cup If("bad", e.bad = 0)

(***************************************************************************)
(* The state after the event                                               *)
(***************************************************************************)
Behind(z, e, o) ==
  IF z.k # "copy" \/ o.stale # "keep" THEN <<>>
  ELSE LET n == Len(e.it)  m == Len(z.it) IN
       IF n <= m THEN SubSeq(z.it, n + 1, m) \o z.st ELSE SubSeq(z.st, n - m + 1, Len(z.st))

Post(z, e, o) ==
  [z EXCEPT !.live = o.live, !.made = @ \/ o.live,
            !.it = IF o.v.t = "none" THEN e.it ELSE <<>>,
            !.cap = IF e.cap = -1 THEN @ ELSE e.cap,
            !.b = [o.b EXCEPT !.it = e.bi, !.cap = e.bc],
            !.v = Widened(o, e),
            !.st = Behind(z, e, o),
            !.lk = @ \/ o.lk,
            !.hw = Max2(@, o.ext)]

\* operations that a host may not have
Optional == Constructors \cup
  {"clone", "clone_swap", "clone_from_vec", "cmpv", "set_len", "vec_rt", "to_vec", "heap_rt", "into_arr", "split_off", "convert",
   "push_arr", "push_arr_u", "try_push_arr", "insert_arr", "insert_arr_u", "try_insert_arr", "pop_arr", "pop_arr_u",
   "try_pop_arr", "remove_arr", "remove_arr_u", "try_remove_arr"}

Possible(z, e) ==
  IF e.op = "fin" THEN {[Out(z) EXCEPT !.al = "any"]}
  ELSE Outcomes(z, e, Traces[tr].k) \cup (IF e.st = "skip" /\ e.op \in Optional THEN {Skipped(z)} ELSE {})

\* the end of an execution: no block of memory is left
FinOk(z, e) == If("fin", z.lk \/ e.n = 0)

(***************************************************************************)
(* Invariants of the specification, in every state that was reached        *)
(***************************************************************************)
\* every element is in one place
OnePlace(z) == z.k = "own" => Distinct(Owned(z))
\* the vector fits in its storage
Fits(z) == z.live /\ ~Open(z) => Len(z.it) <= z.cap
\* an open view leaves the vector itself empty
Borrowed(z) == Open(z) => z.it = <<>>
Sane(z) == OnePlace(z) /\ Fits(z) /\ Borrowed(z)

Init ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ s = Start(Traces[tr].k, Traces[tr].h)

Report(e, aspects) ==
  PrintT("MISMATCH " \o ToString(Traces[tr].id) \o " " \o ToString(l) \o " " \o e.op \o " " \o ToJson(aspects))

Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         os == Possible(s, e)
         hard == {o \in os : Hard(s, e, o) = {}}
         fits == {o \in hard : Soft(s, e, o) \cup (IF e.op = "fin" THEN FinOk(s, e) ELSE {}) = {}}
     IN
     IF fits # {}
     THEN \E o \in fits : s' = Post(s, e, o) /\ l' = l + 1
     ELSE LET from == IF hard # {} THEN hard ELSE os
              all(o) == Hard(s, e, o) \cup Soft(s, e, o) \cup (IF e.op = "fin" THEN FinOk(s, e) ELSE {})
              best == CHOOSE o \in from : \A p \in from : Cardinality(all(o)) <= Cardinality(all(p))
          IN /\ Report(e, all(best))
             /\ IF hard # {} /\ Sane(Post(s, e, best)) THEN s' = Post(s, e, best) /\ l' = l + 1
                ELSE s' = s /\ l' = Len(Traces[tr].ev) + 1
  /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

Invariant == Sane(s)

=============================================================================
