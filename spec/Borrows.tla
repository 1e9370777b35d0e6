------------------------------ MODULE Borrows -------------------------------
(***************************************************************************)
(* What safe code may do with vectors, views and references (C31).         *)
(*                                                                         *)
(* Programs make objects one from another.  An object holds loans of       *)
(* others: shared ones (they may be read meanwhile) or exclusive ones      *)
(* (they may not be touched).  Whatever touches a lent object ends the     *)
(* loans that do not allow it, and objects that hold an ended loan must    *)
(* not be used any more: a program that does so is not legal.  Objects     *)
(* with a destructor are used where their scope ends.                      *)
(*                                                                         *)
(* Safe: the legal programs are those in which nothing is used that may    *)
(* have been moved, changed or freed meanwhile.  TLC explores all programs *)
(* within the bounds and prints them with the verdict; the compiler must   *)
(* have the same opinion about the implementation's signatures.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Steps,    \* number of steps after the first objects
         Arrays,   \* the feature nightly
         Second,   \* may two of the steps make what is not common
         Starts    \* what is there already, made of the first vector, besides nothing

\* what can be made of what: name, kind of the parent, kind of the result, loan, safe to call, is the parent used up
D(o, p, k, m) == [o |-> o, p |-> p, k |-> k, m |-> m, eats |-> FALSE]
Eat(o, p, k) == [o |-> o, p |-> p, k |-> k, m |-> "own", eats |-> TRUE]
Table ==
  {D(n, "vec", "ref", "shared") : n \in {"as_slice", "index", "range", "iter", "ref_into_iter", "storage", "as_ref", "borrow", "deref", "get"}}
  \cup {D(n, "vec", "mut", "excl") :
          n \in {"as_mut_slice", "index_mut", "range_mut", "iter_mut", "mut_into_iter", "as_mut", "borrow_mut", "deref_mut", "push", "insert", "try_push",
                 "try_insert", "push_unchecked", "insert_unchecked", "storage_mut"}}
  \cup (IF Arrays THEN {D(n, "vec", "mut", "excl") :
          n \in {"push_array", "insert_array", "try_push_array", "try_insert_array", "push_array_unchecked", "insert_array_unchecked"}} ELSE {})
  \cup {D(n, "vec", "it", "excl") : n \in {"drain", "drain_filter", "splice"}}
  \cup {D("spare", "vec", "vec", "excl"), D("cursor", "vec", "cur", "excl"), D("raw_cursor", "vec", "rcur", "excl")}
  \cup {Eat("into_iter", "vec", "into"), Eat("into_raw_parts", "vec", "raw"), Eat("with_storage_again", "raw", "vec")}
  \cup {D(n, "cur", "ref", "shared") : n \in {"cur_front", "cur_back"}}
  \cup {D(n, "cur", "mut", "excl") : n \in {"cur_front_mut", "cur_back_mut", "as_raw_cursor_mut"}}
  \cup {D(n, "rcur", "ref", "shared") : n \in {"rcur_front", "rcur_back"}}
  \cup {D(n, "rcur", "mut", "excl") : n \in {"rcur_front_mut", "rcur_back_mut"}}
  \cup {D("into_as_slice", "into", "ref", "shared"), D("into_as_mut_slice", "into", "mut", "excl")}
  \cup {D("slice_vec", "buf", "vec", "excl"), D("init_vec", "arr", "vec", "excl"), D("uninit_slice", "buf", "mut", "excl"),
        D("storage_by_ref", "heap", "vec", "excl")}
\* with a second object that is lent
Pairs ==
  {[o |-> "filter_reads", p |-> "vec", k |-> "it", q |-> "arr", m |-> "shared"],
   [o |-> "filter_writes", p |-> "vec", k |-> "it", q |-> "arr", m |-> "excl"],
   [o |-> "splice_reads", p |-> "vec", k |-> "it", q |-> "vec", m |-> "shared"],
   [o |-> "splice_drains", p |-> "vec", k |-> "it", q |-> "vec", m |-> "excl"]}
\* for those the other object may be any
Common == {"as_slice", "as_mut_slice", "drain"}

HasDrop(k) == k \in {"vec", "it", "cur", "rcur", "into", "heap"}
\* references are copied, not moved
Movable(k) == HasDrop(k)
Writable(k) == k \in {"vec", "it", "cur", "rcur", "into", "buf", "arr", "heap"}

VARIABLES objs,    \* made so far: kind, loans, was not moved, its loans are not ended
          prog, n, legal, special
vars == <<objs, prog, n, legal, special>>

New(k, loans) == [k |-> k, loans |-> loans, here |-> TRUE, ok |-> TRUE]

\* objects that hold a loan of one of S
RECURSIVE Holders(_, _)
Holders(os, S) ==
  LET T == S \cup {j \in 1..Len(os) : \E l \in os[j].loans : l[1] \in S} IN
  IF T = S THEN S ELSE Holders(os, T)

\* i is touched: loans that do not allow it end
Touch(os, i, how) ==
  LET hit == {j \in 1..Len(os) : \E l \in os[j].loans : l[1] = i /\ (l[2] = "excl" \/ how # "read")}
      all == IF hit = {} THEN {} ELSE Holders(os, hit)
  IN [j \in 1..Len(os) |-> IF j \in all THEN [os[j] EXCEPT !.ok = FALSE] ELSE os[j]]

Usable(os, i) == os[i].here /\ os[i].ok
Gone(os, i) == [os EXCEPT ![i].here = FALSE]

Roots == <<"vec", "vec", "arr", "buf", "heap">>
\* either nothing, or an object made of the first vector, of which the rest of the program makes things
Init ==
  /\ n = 0 /\ legal = TRUE /\ special = 0
  /\ LET roots == [i \in 1..Len(Roots) |-> New(Roots[i], {})] IN
     \/ objs = roots /\ prog = <<>>
     \/ \E t \in {x \in Table : x.p = "vec" /\ x.o \in Starts} :
          /\ prog = <<[do |-> t.o, i |-> 1, j |-> 0]>>
          /\ objs = IF t.eats THEN Append([roots EXCEPT ![1].here = FALSE], New(t.k, {})) ELSE Append(roots, New(t.k, {<<1, t.m>>}))
Started == Len(prog) > n
First == Len(Roots) + 1

Add(step, os, good) == objs' = os /\ prog' = Append(prog, step) /\ n' = n + 1 /\ legal' = good

\* the roots that matter: those that something was made of, or the first of its kind
Relevant(i) == i > Len(Roots) \/ i = 1 \/ (i \in 3..5 /\ ~Started) \/ (\E j \in 1..Len(objs) : \E l \in objs[j].loans : l[1] = i)

Derive ==
  \E t \in Table : \E i \in 1..Len(objs) :
    /\ objs[i].here /\ objs[i].k = t.p /\ Relevant(i)
    /\ Started /\ t.o \notin Common => i = First
    /\ IF t.o \in Common THEN special' = special ELSE (IF Second THEN special < 2 ELSE special = 0) /\ special' = special + 1
    /\ LET how == IF t.eats THEN "move" ELSE IF t.m = "excl" THEN "write" ELSE "read"
           os == Touch(objs, i, how)
           loans == IF t.eats THEN objs[i].loans ELSE {<<i, t.m>>}
           new == Append(os, New(t.k, loans))
       IN Add([do |-> t.o, i |-> i, j |-> 0], IF t.eats THEN Gone(new, i) ELSE new, Usable(objs, i))

DerivePair ==
  \E t \in Pairs : \E i \in {1}, j \in 1..Len(objs) :
    /\ objs[i].here /\ objs[j].here /\ objs[i].k = t.p /\ objs[j].k = t.q
    /\ special = 0 /\ special' = 1 /\ ~Started
    \* the vector is borrowed first
    /\ LET os1 == Append(Touch(objs, i, "write"), New(t.k, {<<i, "excl">>}))
           ok1 == Usable(objs, i)
           ok2 == j # i /\ Usable(os1, j)
           os2 == Touch(os1, j, IF t.m = "excl" THEN "write" ELSE "read")
           m == Len(os2)
       IN Add([do |-> t.o, i |-> i, j |-> j], [os2 EXCEPT ![m].loans = @ \cup {<<j, t.m>>}], ok1 /\ ok2 /\ os2[m].ok)

Act ==
  \E i \in 1..Len(objs) :
    /\ objs[i].here /\ Relevant(i) /\ prog # <<>> /\ special' = special
    /\ \/ Add([do |-> "read", i |-> i, j |-> 0], Touch(objs, i, "read"), Usable(objs, i))
       \/ Writable(objs[i].k) /\ Add([do |-> "write", i |-> i, j |-> 0], Touch(objs, i, "write"), Usable(objs, i))
       \/ Movable(objs[i].k) /\ Add([do |-> "move", i |-> i, j |-> 0], Gone(Touch(objs, i, "move"), i), Usable(objs, i))

\* both vectors are borrowed at the same time
Two ==
  \E t \in {<<"append", "write">>, <<"split_off_into", "write">>, <<"extend_from_slice", "read">>, <<"clone_from", "read">>, <<"extend_iter", "read">>} :
  \E i, j \in {1, 2} :
    /\ objs[i].here /\ objs[j].here
    /\ special = 0 /\ special' = 1 /\ ~Started
    /\ Add([do |-> t[1], i |-> i, j |-> j], Touch(Touch(objs, i, "write"), j, t[2]), i # j /\ Usable(objs, i) /\ Usable(objs, j))

\* the scope ends: what has a destructor is used, in reverse order
RECURSIVE ScopeEnd(_, _)
ScopeEnd(os, i) ==
  IF i = 0 THEN TRUE
  ELSE IF os[i].here /\ HasDrop(os[i].k)
  THEN os[i].ok /\ ScopeEnd(Gone(Touch(os, i, "move"), i), i - 1)
  ELSE ScopeEnd(os, i - 1)

Next == legal /\ n < Steps /\ (Derive \/ DerivePair \/ Act \/ Two)
Spec == Init /\ [][Next]_vars

\* the verdict
Legal == legal /\ ScopeEnd(objs, Len(objs))
\* what is printed: programs that end here
Ends == n > 0 /\ (n = Steps \/ ~legal \/ ~Legal)
Emit == Ends => PrintT("PROGRAM " \o ToJson([p |-> prog, k |-> [i \in 1..Len(objs) |-> objs[i].k], legal |-> Legal]))

\* Elements may be used as if they lived shorter than they do where they are only read, or by their only owner; not by
\* who can put an element into the vector of another one
Shortenings ==
  {[o |-> o, legal |-> TRUE] : o \in {"heap", "array", "into_iter"}}
  \cup {[o |-> o, legal |-> FALSE] : o \in {"cursor", "raw_cursor", "splice", "mut_vec", "as_raw_cursor_mut"}}
Shorten == prog = <<>> => \A x \in Shortenings : PrintT("PROGRAM " \o ToJson([p |-> <<>>, k |-> <<x.o>>, legal |-> x.legal]))

\* laws, while the program is legal: what is lent exclusively has one holder that may be used; who moved something has ended its loans
Exclusive ==
  legal => \A i \in 1..Len(objs) :
    LET H == {j \in 1..Len(objs) : objs[j].ok /\ objs[j].here /\ \E l \in objs[j].loans : l[1] = i}
        X == {j \in H : <<i, "excl">> \in objs[j].loans}
    IN X # {} => Cardinality(H) = 1
Moved == legal => \A i \in 1..Len(objs) : ~objs[i].here => \A j \in 1..Len(objs) : (\E l \in objs[j].loans : l[1] = i) => ~objs[j].ok
=============================================================================
