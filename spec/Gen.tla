---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Explores the specification GenericVec, and turns what it explores into  *)
(* scripts for the harness.                                                *)
(*                                                                         *)
(* mode "x": breadth first over all states up to their shape (Shape below, *)
(*   used as VIEW), with everything that the configuration allows.  Every  *)
(*   transition becomes a script: a shortest path to its source, and then  *)
(*   the operation.                                                        *)
(* mode "r": cfg.walks random walks of cfg.depth operations, one script    *)
(*   each.                                                                 *)
(*                                                                         *)
(* In both modes the laws in Check are asserted of every transition and    *)
(* Invariant is checked in every state.                                    *)
(***************************************************************************)
EXTENDS GenericVec, TLC, Json, IOUtils

\* The configuration, a record with the fields
\*   mode  : "x" or "r"
\*   hosts : sequence of <<kind, storage>>
\*   ops   : sequence of the names of the operations
\*   caps  : requested sizes of the storage at creation
\*   len   : maximal initial length, maxlen: maximal length (and number of slots of a view) that operations are applied to
\*   depth : maximal number of operations
\*   keys  : number of different keys of the initial elements (0: they are not relevant)
\*   weird : 1 if arguments that are out of bounds are used
\*   huge  : 1 if arguments close to usize::MAX are used
\*   faults: sequence of the kinds of injected faults, fmax: largest position of the fault
\*   src   : maximal length of argument lists
\*   hints : kinds of size hints
\*   modes, masks: of predicates
\*   bcaps : capacities of the second vector
\*   walks : number of random walks
cfg == JsonDeserialize(IOEnv.GENCFG)

VARIABLES s, path, ser, d, w
vars == <<s, path, ser, d, w>>

X == cfg.mode = "x"
Set(q) == {q[i] : i \in 1..Len(q)}

One(S) == {<<x>> : x \in S}
Pick(S) == IF X THEN S ELSE {RandomElement(S)}

Huge == IF cfg.huge = 1 THEN {-1, -2, -64} ELSE {}
Weird(S) == IF cfg.weird = 1 THEN S ELSE {}

(***************************************************************************)
(* Arguments.  Args(op) is a sequence of sets of sequences: one of each is *)
(* concatenated to the arguments of the operation.                         *)
(***************************************************************************)
Idx(n) == One(0..(n - 1) \cup Weird({n, n + 1}) \cup Weird(Huge))
Idx1(n) == One(0..n \cup Weird({n + 1}) \cup Weird(Huge))
Pattern == <<5, 6, 7, 4, 3, 2, 1, 0, 5, 6, 7, 4, 3, 2, 1, 0>>
K1 == IF X THEN {<<5>>} ELSE One(0..7)
Lists(n) == IF X THEN {SubSeq(Pattern, 1, j) : j \in 0..n}
            ELSE LET m == RandomElement(0..n) IN {[i \in 1..m |-> RandomElement(0..7)]}
\* lists of initial elements
Firsts(n) ==
  IF X THEN IF cfg.keys = 0 THEN {[i \in 1..j |-> i % 5] : j \in 0..n}
            ELSE UNION {[1..j -> 0..(cfg.keys - 1)] : j \in 0..n}
  ELSE LET m == RandomElement(0..n)  k == IF cfg.keys = 0 THEN 8 ELSE cfg.keys IN {[i \in 1..m |-> RandomElement(0..(k - 1))]}

Edges(n) == 0..n \cup Weird({n + 1}) \cup Weird(Huge)
Ranges(n) ==
  IF cfg.weird = 1
  THEN IF X THEN {p \o q : p \in {<<0, 0>>} \cup {<<x, i>> : x \in {1, 2}, i \in Edges(n)},
                           q \in {<<0, 0>>} \cup {<<x, i>> : x \in {1, 2}, i \in Edges(n)}}
       ELSE LET p == RandomElement(0..2)  q == RandomElement(0..2) IN
            {<<p, RandomElement(Edges(n)), q, RandomElement(Edges(n))>>}
  ELSE IF X THEN UNION {{<<1, i, 2, j>> : j \in i..n} : i \in 0..n}
       ELSE LET i == RandomElement(0..n) IN {<<1, i, 2, RandomElement(i..n)>>}

Masks(mode) == Pick(One(0..(cfg.masks - 1)))
Preds == Pick(One(Set(cfg.modes)))
Sources == <<One(Set(cfg.hints)), Lists(cfg.src)>>

Many == IF cfg.big = 1 THEN {7, 8, 9, 16, 17, 31, 33, 63, 64, 65, 100, 129} ELSE {}
Counts == One({0, 1, 2, 3, 5} \cup Many \cup Huge)
\* no huge vectors of zero-sized elements
Sizes == IF IsZst(s) THEN One({0, 1, 2, 3, 5} \cup Many) ELSE Counts

InitArgs ==
  UNION {{<<c>> \o q : q \in Firsts(Min2(cfg.len, IF IsZst(s) THEN 99 ELSE c))} : c \in Pick(Set(cfg.caps))}

Args(op) ==
  LET n == Len(s.it)  m == Len(s.v.mid) IN
  CASE op \in {"init", "init_full"} -> <<InitArgs>>
    [] op = "with_cap" -> <<One(Set(cfg.caps) \cup IF IsZst(s) THEN {} ELSE Huge)>>
    [] op \in {"collect"} -> Sources
    [] op \in {"gvec", "efs", "efs_u", "clone_from", "vec_rt"} -> <<Lists(cfg.src)>>
    [] op = "clone_from_vec" -> <<Lists(Min2(cfg.src, IF IsZst(s) \/ s.cap < 0 THEN 5 ELSE s.cap))>>
    [] op = "gvec_rep" -> <<One({0, 1, 2, 3, 5}), K1>>
    [] op = "from_vec" -> <<One(Set(cfg.caps)), Firsts(cfg.len)>>
    [] op = "from_arr" -> <<One({0}), Firsts(6)>>
    [] op \in {"push", "push_u", "try_push", "c_write_front", "c_write_back", "c_try_write_front",
               "c_try_write_back", "s_push", "s_try_push", "c_set_front", "c_set_back"} -> <<K1>>
    [] op \in {"insert", "insert_u", "try_insert"} -> <<Idx1(n), K1>>
    [] op \in {"remove", "remove_u", "try_remove", "swap_remove", "swap_remove_u", "try_swap_remove", "index"} -> <<Idx(n)>>
    [] op = "truncate" -> <<Idx1(n)>>
    [] op \in {"reserve", "try_reserve"} -> <<Counts>>
    [] op \in {"raw_reserve", "raw_try"} -> <<One(0..7 \cup Many \cup {2 * i : i \in Many} \cup Huge)>>
    [] op \in {"grow", "resize", "grow_with", "resize_with"} -> <<Sizes, K1>>
    [] op \in {"extend", "extend_ref"} -> Sources
    [] op = "retain" -> <<Preds, Masks(0)>>
    [] op = "dedup_by" -> <<Pick({<<0, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>} \cup {<<1, x>> : x \in 0..(cfg.masks - 1)})>>
    [] op = "initb" -> <<One({0, 1}), LET c == Pick(Set(cfg.bcaps)) IN UNION {{<<x>> \o q : q \in Lists(IF cfg.big = 1 THEN x ELSE Min2(x, 5))} : x \in c}>>
    [] op = "split_into" -> <<Idx1(n)>>
    [] op = "split_off" -> <<Idx1(n), One(Targets(s))>>
    [] op = "convert" -> <<One(Targets(s))>>
    [] op \in {"cursor", "rcursor", "drain"} -> <<Ranges(n)>>
    [] op = "dfilter" -> <<Ranges(n), Preds, Masks(0)>>
    [] op = "splice" -> <<Ranges(n)>> \o Sources
    [] op = "set_at" -> <<Idx(n), One(0..7), K1>>
    [] op \in {"cmp", "cmpv"} -> <<Firsts(cfg.len)>>
    [] op = "cmpn" -> <<One({0, 1, 2}), Firsts(cfg.len)>>
    [] op = "set_len" -> <<One(0..Max2(0, Min2(s.cap, 9)) \cup Weird({s.cap + 1}) \cup Huge)>>
    [] op \in {"push_arr", "push_arr_u", "try_push_arr"} -> <<Pick({SubSeq(Pattern, 1, j) : j \in {0, 1, 2, 3, 5}})>>
    [] op \in {"insert_arr", "insert_arr_u", "try_insert_arr"} ->
       <<Idx1(n), Pick({SubSeq(Pattern, 1, j) : j \in {0, 1, 2, 3, 5}})>>
    [] op \in {"pop_arr", "pop_arr_u", "try_pop_arr"} -> <<One({0, 1, 2, 3, 5})>>
    [] op \in {"remove_arr", "remove_arr_u", "try_remove_arr"} -> <<One({0, 1, 2, 3, 5}), Idx1(n)>>
    [] op \in {"c_drop_n_front", "c_drop_n_back", "c_skip_n_front", "c_skip_n_back", "v_nth", "v_nth_back"} ->
       <<One(0..m \cup Weird({m + 1}) \cup Weird(Huge))>>
    \* no panics while the end of the iterator may panic
    [] op \in {"v_try", "v_try_back"} -> <<One(0..Min2(3, m))>>
    [] op \in {"v_fold", "v_each", "v_rfold"} -> <<One(IF s.v.t = "splice" THEN {0} ELSE 0..Min2(2, m))>>
    [] op \in {"c_wslice_front", "c_wslice_back"} -> <<Lists(IF cfg.big = 1 THEN 40 ELSE 3)>>
    [] op = "c_reserve" -> <<One({0, 1, 2, 3, 5} \cup Many \cup IF IsZst(s) THEN {} ELSE Huge)>>
    [] op = "v_touch" -> <<One(0..m), K1>>
    [] op = "s_insert" -> <<Idx1(m), K1>>
    [] op = "s_remove" -> <<Idx(m)>>
    [] OTHER -> <<>>

RECURSIVE Product(_)
Product(q) ==
  IF q = <<>> THEN {<<>>}
  ELSE IF Len(q) = 1 THEN q[1]
  ELSE LET rest == Product(Tail(q)) IN {x \o y : x \in q[1], y \in rest}

RECURSIVE Random(_)
Random(q) == IF q = <<>> THEN <<>> ELSE RandomElement(q[1]) \o Random(Tail(q))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
ViewOps == CursorOps \cup IterOps \cup SpareOps

Applicable(op) ==
  IF Open(s)
  THEN CASE s.v.t \in {"cursor", "rcursor"} -> op \in CursorOps
         [] s.v.t = "spare" -> op \in SpareOps
         [] OTHER -> op \in IterOps
  ELSE IF s.live THEN op \notin Constructors \cup ViewOps /\ ~(op = "initb" /\ s.b.on)
                      /\ (op \in {"append", "append_rev", "split_into", "cmpb"} => s.b.on)
  ELSE ~s.made /\ op \in Constructors

\* an empty set of arguments: not applicable
Possible(op) == Applicable(op) /\ \A i \in 1..Len(Args(op)) : Args(op)[i] # {}

\* the operation as the specification sees it, with new elements
Event(op, a, f, fk) ==
  LET e == [op |-> op, a |-> a, f |-> f, fk |-> fk, nw |-> <<>>]
      keys == NewKeys(s, e)
  IN [e EXCEPT !.nw = [j \in 1..Len(keys) |-> IF IsZst(s) THEN 0 ELSE (ser + j) * 8 + keys[j]]]

\* only try_reserve can do without memory
Faults(op) ==
  {<<"-", 0>>} \cup {<<f, n>> : f \in {g \in Set(cfg.faults) : op \notin {"v_count", "v_last", "v_fold", "v_each", "v_rfold", "v_try", "v_try_back", "v_into_vec"} /\ ((g = "a") => op \in {"try_reserve", "raw_try"} /\ s.gr # "user")}, n \in 1..cfg.fmax}

K0 == cfg.hosts[w][1]

\* what a storage may lack is there
OutcomesOf(e) ==
  LET os == Outcomes(s, e, K0)  some == {o \in os : o.st # "skip"} IN IF some = {} THEN os ELSE some

\* Nothing for the harness to do, or a fault that does not happen
Pointless(e, os) ==
  \/ \A o \in os : o.st = "skip"
  \/ e.f # "-" /\ e.f # "a" /\ \A o \in os : o.st # "inj"

RECURSIVE Words(_)
Words(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Words(Tail(a))
Text(e) == e.op \o Words(e.a) \o (IF e.f = "-" THEN "" ELSE " @" \o e.f \o ToString(e.fk)) \o ";"

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
\* gives the clones in q identities, from serial number n on
RECURSIVE Named(_, _)
Named(q, n) ==
  IF q = <<>> THEN <<>>
  ELSE LET x == q[1] IN
       CASE x = Unknown -> <<DefaultId>> \o Named(Tail(q), n)
         [] x >= 0 -> <<x>> \o Named(Tail(q), n)
         [] s.k = "copy" -> <<-x>> \o Named(Tail(q), n)
         [] OTHER -> <<n * 8 + Key(-x)>> \o Named(Tail(q), n + 1)

GrownTo(need) == IF s.gr = "heap" THEN Max2(2 * s.cap, need) ELSE need

NewCap(e, o) ==
  CASE ~o.live -> s.cap
    [] s.gr = "zst" -> Unlimited
    [] o.cap = "new" -> IF s.live THEN IF s.gr = "fixed" THEN s.cap ELSE Len(o.it)
                        ELSE IF s.gr = "fixed" THEN HostCap(s.h, K0, CreateSize(s, e)) ELSE o.need
    [] s.gr = "fixed" -> s.cap
    [] OTHER -> LET need == Max2(o.need, Len(o.it)) IN
                IF need > s.cap THEN GrownTo(need) ELSE s.cap

After__(e, o) ==
  LET n == ser + Len(e.nw) + 1 IN
  [s EXCEPT !.live = o.live, !.made = @ \/ o.live \/ e.op \in Constructors, !.it = Named(o.it, n), !.cap = NewCap(e, o), !.v = o.v,
            !.b = IF o.b.on /\ o.bneed > o.b.cap THEN [o.b EXCEPT !.cap = Max2(2 * @, o.bneed)] ELSE o.b,
            !.lk = @ \/ o.lk]

(***************************************************************************)
(* Laws of every transition                                                *)
(***************************************************************************)
Sers(q) == {q[i] \div 8 : i \in 1..Len(q)}
NoDups(q) == Cardinality(Sers(q)) = Len(q)
Abs_(q) == [i \in 1..Len(q) |-> IF q[i] < 0 THEN -q[i] ELSE q[i]]

\* Operations that are refused change nothing
Refusals(e, o) ==
  o.st \in {"panic", "err", "skip"} /\ s.live /\ ~Open(s) /\ ~o.perm /\ o.cl = <<>> /\ e.op # "drop"
    => /\ (o.live => o.it = s.it)
       /\ o.b.it = s.b.it
\* Nothing comes from nowhere
Conserved(e, o) ==
  s.k = "own" =>
    /\ Sers(Abs_(o.it \o o.v.left \o o.v.mid \o o.v.right \o o.b.it \o o.ret)) \subseteq
         Sers(Owned(s) \o e.nw) \cup {Unknown \div 8, -(Unknown) \div 8}
    \* an element is in one place, or was handed out
    /\ NoDups(SelectSeq(o.it \o o.v.left \o o.v.mid \o o.v.right \o o.b.it \o (IF o.rown THEN o.ret ELSE <<>>),
                        LAMBDA x : x >= 0))
\* What is not lost, dropped or handed out is still there: without faults only these operations drop elements
Drops == {"truncate", "clear", "retain", "dedup", "dedup_by", "dedup_key", "clone_from", "clone_from_vec", "v_end",
  "v_nth", "v_nth_back", "c_drop_front", "c_drop_back", "c_drop_n_front", "c_drop_n_back", "resize", "resize_with",
  "drop", "to_vec", "convert", "into_arr", "clone_swap", "v_count", "v_last", "v_fold", "v_each", "v_rfold", "v_into_vec", "v_forget", "forget", "set_len", "dropb"}
Kept_(e, o) ==
  s.k = "own" /\ e.f = "-" /\ e.op \notin Drops =>
    Sers(Owned(s)) \subseteq Sers(o.it \o o.v.left \o o.v.mid \o o.v.right \o o.b.it \o o.ret)
\* A fixed storage is never exceeded
Bounded(e, o) ==
  s.gr = "fixed" /\ o.live /\ s.live /\ ~Open(s) /\ o.v.t = "none" => Len(o.it) <= s.cap
\* try_ operations neither panic nor need more room than there is
Tries(e, o) ==
  e.op \in {"try_push", "try_insert", "try_pop", "try_remove", "try_swap_remove", "try_push_arr", "try_insert_arr",
            "try_pop_arr", "try_remove_arr"} =>
    o.st \in {"ok", "err", "none"} /\ (o.need <= s.cap \/ s.gr = "zst") /\ (o.st = "err" => o.ret = e.nw)

Check(e, o) ==
  /\ Assert(Refusals(e, o), <<"refusal", e, o, s>>)
  /\ Assert(Conserved(e, o), <<"conserved", e, o, s>>)
  /\ Assert(Kept_(e, o), <<"kept", e, o, s>>)
  /\ Assert(Bounded(e, o), <<"bounded", e, o, s>>)
  /\ Assert(Tries(e, o), <<"try", e, o, s>>)

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
Walks == IF X THEN 1..Len(cfg.hosts) ELSE 1..Len(cfg.hosts)

Init ==
  /\ w \in 1..Len(cfg.hosts)
  /\ s = Start(cfg.hosts[w][1], cfg.hosts[w][2])
  /\ path = ""
  /\ ser = 0
  /\ d \in IF X THEN {0} ELSE {1000 * i : i \in 1..cfg.walks}

Steps == d % 1000

Emit(p) == PrintT("SCRIPT " \o cfg.hosts[w][1] \o " " \o cfg.hosts[w][2] \o " " \o p)

Step(e, os) ==
  \E o \in os :
    /\ Check(e, o)
    /\ s' = After__(e, o)
    /\ ser' = ser + Len(e.nw) + Len(o.it)
    /\ path' = path \o Text(e)
    /\ d' = d + 1

\* the operations of the configuration that can be applied
Ready == {op \in Set(cfg.ops) : Possible(op)}

NextX ==
  /\ Steps < cfg.depth
  /\ Len(s.it) <= cfg.maxlen
  /\ Extent(s.v) <= cfg.maxlen
  /\ \E op \in Ready : \E a \in Product(Args(op)) : \E f \in Faults(op) :
       LET e == Event(op, a, f[1], f[2])
           os == OutcomesOf(e)
       IN /\ ~Pointless(e, os)
          /\ Emit(path \o Text(e))
          /\ Step(e, os)

\* Names can be given several times to make an operation more frequent
ReadyAt == {i \in 1..Len(cfg.ops) : Applicable(cfg.ops[i])}

NextR ==
  IF Steps >= cfg.depth \/ Len(s.it) > cfg.maxlen \/ ReadyAt = {}
  THEN /\ Steps < 900
       /\ Emit(path)
       /\ d' = (d \div 1000) * 1000 + 900
       /\ UNCHANGED <<s, path, ser>>
  ELSE /\ \E i \in {RandomElement(ReadyAt)} :
          IF ~Possible(cfg.ops[i]) THEN d' = d + 1 /\ UNCHANGED <<s, path, ser>>
          ELSE
          \E a \in {Random(Args(cfg.ops[i]))} :
          \E f \in {IF RandomElement(1..6) = 1 THEN RandomElement(Faults(cfg.ops[i])) ELSE <<"-", 0>>} :
            LET e0 == Event(cfg.ops[i], a, f[1], f[2])
                e == IF Pointless(e0, OutcomesOf(e0)) THEN Event(cfg.ops[i], a, "-", 0) ELSE e0
                os == OutcomesOf(e)
            IN IF Pointless(e, os) THEN d' = d + 1 /\ UNCHANGED <<s, path, ser>>
               ELSE \E o \in {RandomElement(os)} : Step(e, {o})

Next == (IF X THEN NextX ELSE NextR) /\ UNCHANGED w

Spec == Init /\ [][Next]_vars

Invariant ==
  /\ s.k = "own" => NoDups(Owned(s))
  /\ s.live /\ ~Open(s) => Len(s.it) <= s.cap
  /\ Open(s) => s.it = <<>>

\* The elements are only told apart by their keys, if at all
Blur(q) == IF cfg.keys = 0 THEN Len(q) ELSE Keys(q)
Shape ==
  IF X
  THEN <<w, s.live, s.made, Blur(s.it), s.cap, s.b.on, s.b.gr, s.b.cap, Len(s.b.it), s.v.t, Blur(s.v.left), s.v.gf,
         Blur(s.v.mid), s.v.gb, Blur(s.v.right), s.v.a, s.v.calls, s.v.pan, s.v.grew>>
  ELSE vars
===============================================================================
