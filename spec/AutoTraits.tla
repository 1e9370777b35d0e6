----------------------------- MODULE AutoTraits -----------------------------
(***************************************************************************)
(* Which values may be given to, or shared with, another thread (C29).     *)
(*                                                                         *)
(* A value consists of parts: elements, a storage and further parts (the   *)
(* predicate of a DrainFilter, the replacement of a Splice).  The parts    *)
(* are used by whoever has the value: with the value itself they move to   *)
(* the other thread, with a reference to it they are shared.  A thread may *)
(* use a part only if the part allows it, and the value must not be more   *)
(* restricted than its parts.                                              *)
(*                                                                         *)
(* The behaviours are: a value is made of parts on thread 1, and given to  *)
(* or shared with thread 2 if its type allows it.  What its type allows is *)
(* what the compiler derived for the implementation (TRACES), so that the  *)
(* invariant decides every recorded combination.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, TLC, IOUtils

Recorded == ndJsonDeserialize(IOEnv.TRACES)

\* the parts of a value: <<may be sent, may be shared>>
Parts(r) ==
  CASE r.op \in {"vec", "into", "cursor", "rcursor", "drain"} -> <<r.e, r.s>>
    [] r.op \in {"dfilter", "splice"} -> <<r.e, r.s, r.x>>

VARIABLES i, moved, shared
vars == <<i, moved, shared>>

Init == i \in 1..Len(Recorded) /\ moved = FALSE /\ shared = FALSE

Give  == ~moved /\ ~shared /\ Recorded[i].r[1] = 1 /\ moved' = TRUE /\ UNCHANGED <<i, shared>>
Share == ~moved /\ ~shared /\ Recorded[i].r[2] = 1 /\ shared' = TRUE /\ UNCHANGED <<i, moved>>
Next == Give \/ Share
Spec == Init /\ [][Next]_vars

\* no part is used by a thread that must not use it
Safe ==
  LET p == Parts(Recorded[i]) IN
  /\ moved => \A j \in 1..Len(p) : p[j][1] = 1
  /\ shared => \A j \in 1..Len(p) : p[j][2] = 1
\* nothing is forbidden that all parts allow
Free ==
  LET p == Parts(Recorded[i]) IN
  /\ (\A j \in 1..Len(p) : p[j][1] = 1) => Recorded[i].r[1] = 1
  /\ (\A j \in 1..Len(p) : p[j][2] = 1) => Recorded[i].r[2] = 1

\* reported rather than raised, so that every combination is examined
Report(what) == PrintT("MISMATCH " \o ToString(i) \o " " \o what \o " " \o ToJson(Recorded[i]))
Examined ==
  /\ Safe \/ Report("unsafe")
  /\ Free \/ Report("forbidden")
=============================================================================
