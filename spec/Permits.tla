------------------------------ MODULE Permits -------------------------------
(***************************************************************************)
(* Which operations there are for which elements and storages, and which   *)
(* of them safe code may call (C31).                                       *)
(*                                                                         *)
(* An operation relies on abilities of the elements (that they can be      *)
(* cloned, are plain bits, can be compared) and of the storage (it can be  *)
(* made from nothing, it only holds initialised items); a storage of       *)
(* initialised items relies on plain bits itself, because it hands out     *)
(* items that nobody wrote and forgets those it has.  What an operation    *)
(* relies on and does not check must be promised by the caller, who does   *)
(* so by calling it in an unsafe block.                                    *)
(*                                                                         *)
(* Every combination is explored, with the verdict; the compiler must have *)
(* the same opinion about the implementation.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Arrays  \* the feature nightly

\* elements: what they can
Elements ==
  {<<"Bare", {}>>, <<"Cloned", {"clone"}>>, <<"Plain", {"clone", "copy"}>>, <<"Equal", {"eq"}>>,
   <<"Ordered", {"eq", "partial", "total"}>>, <<"Partly", {"eq", "partial"}>>, <<"Hashed", {"hash"}>>, <<"Shown", {"debug"}>>,
   <<"Zeroed", {"clone", "copy", "default"}>>}
\* storages: what they need of their elements, what they can, what they can if the elements have a default
Storages ==
  {<<"heap", {}, {"new"}, {}>>, <<"slice", {}, {}, {}>>, <<"array", {}, {"new"}, {}>>, <<"islice", {"copy"}, {"init"}, {}>>,
   <<"ibox", {"copy"}, {"init"}, {}>>, <<"iarray", {"copy"}, {"init"}, {"new"}>>}

Op(n, e, s, u) == [n |-> n, e |-> e, s |-> s, u |-> u]
Ops ==
  {Op(n, {}, {}, FALSE) :
     n \in {"push", "insert", "pop", "remove", "swap_remove", "try_push", "try_insert", "try_pop", "try_remove", "try_swap_remove", "truncate", "clear",
            "retain", "drain", "drain_filter", "splice", "cursor", "raw_cursor", "grow_with", "resize_with", "extend", "append", "split_off_into",
            "dedup_by", "dedup_by_key", "spare", "reserve", "try_reserve", "as_slice", "as_mut_slice", "index", "split_off_heap", "capacity",
            "cursor_write", "cursor_take"}}
  \cup {Op(n, {"clone"}, {}, FALSE) : n \in {"grow", "resize", "extend_from_slice", "clone_from"}}
  \cup {Op("clone", {"clone"}, {"new"}, FALSE)}
  \cup {Op(n, {}, {"new"}, FALSE) : n \in {"with_capacity", "default", "collect", "split_off_same"}}
  \cup {Op(n, {"copy"}, {}, FALSE) : n \in {"write_slice_front", "write_slice_back"}}
  \cup {Op(n, {"eq"}, {}, FALSE) : n \in {"eq", "eq_slice", "dedup"}}
  \cup {Op("lt", {"partial"}, {}, FALSE), Op("cmp", {"total"}, {}, FALSE), Op("hash", {"hash"}, {}, FALSE), Op("debug", {"debug"}, {}, FALSE)}
  \cup {Op("set_len", {}, {"init"}, FALSE)}
  \cup {Op(n, {}, {}, TRUE) :
          n \in {"push_unchecked", "insert_unchecked", "pop_unchecked", "remove_unchecked", "swap_remove_unchecked", "set_len_unchecked", "storage_mut",
                 "from_raw_parts", "extend_from_slice_unchecked",
                 "r_front", "r_back", "r_front_mut", "r_back_mut", "r_take_front", "r_take_back", "r_drop_front", "r_drop_back", "r_drop_n_front",
                 "r_drop_n_back", "r_write_front", "r_write_back", "r_write_slice_front", "r_write_slice_back", "r_skip_front", "r_skip_back",
                 "r_skip_n_front", "r_skip_n_back", "heap_from_raw_parts", "slice_to_mut"}}
  \cup (IF Arrays THEN
          {Op(n, {}, {}, FALSE) : n \in {"push_array", "insert_array", "pop_array", "remove_array", "try_push_array", "try_insert_array", "try_pop_array", "try_remove_array"}}
          \cup {Op(n, {}, {}, TRUE) : n \in {"push_array_unchecked", "insert_array_unchecked", "pop_array_unchecked", "remove_array_unchecked"}}
        ELSE {})

VARIABLES op, el, st, block
vars == <<op, el, st, block>>
Init == op \in Ops /\ el \in Elements /\ st \in Storages /\ block \in {op.u, FALSE}
Spec == Init /\ [][FALSE]_vars

Able == op.e \cup st[2] \subseteq el[2] /\ op.s \subseteq st[3] \cup (IF "default" \in el[2] THEN st[4] ELSE {})
\* who promises what the operation does not check
Promised == op.u => block
Emit == Able \/ Promised => PrintT("PERMIT " \o ToJson([op |-> op.n, e |-> el[1], s |-> st[1], block |-> block, able |-> Able, promised |-> Promised]))
\* law: what nobody checked is not reachable from safe code
Sound == (Able /\ Promised /\ ~block) => ~op.u
=============================================================================
