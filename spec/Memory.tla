------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Memory of a vector: a cell is the id of the element there, or 0 if      *)
(* there is none (it was moved away, or never written).  Positions count   *)
(* from 0.  Moving what is no element, or over an element, is an error.    *)
(***************************************************************************)
EXTENDS Sequences, Naturals, Integers, TLC

At(m, i) == m[i + 1]
Cells(m, i, j) == SubSeq(m, i + 1, j)
Live(m, i, j) == \A x \in i..(j - 1) : At(m, x) # 0
Dead(m, i, j) == \A x \in i..(j - 1) : At(m, x) = 0
Id(n) == n * 8

\* the element at i is moved away
Out_(m, i) == IF At(m, i) # 0 THEN [m EXCEPT ![i + 1] = 0] ELSE Assert(FALSE, "no element to read")
RECURSIVE OutN(_, _, _)
OutN(m, i, n) == IF n = 0 THEN m ELSE OutN(Out_(m, i), i + 1, n - 1)

\* a new element at i
In_(m, i, x) == IF i < Len(m) /\ At(m, i) = 0 THEN [m EXCEPT ![i + 1] = x] ELSE Assert(FALSE, "an element is overwritten")
RECURSIVE InN(_, _, _)
InN(m, i, xs) == IF xs = <<>> THEN m ELSE InN(In_(m, i, xs[1]), i + 1, Tail(xs))

\* ptr::copy of n elements, which are moved
Copy(m, dst, src, n) ==
  IF n = 0 \/ dst = src THEN m
  ELSE IF ~Live(m, src, src + n) THEN Assert(FALSE, "what is copied is no element")
  ELSE IF \E i \in dst..(dst + n - 1) : i >= Len(m) \/ (~(i \in src..(src + n - 1)) /\ At(m, i) # 0)
  THEN Assert(FALSE, "an element is overwritten by a copy")
  ELSE [i \in 1..Len(m) |->
          IF i - 1 \in dst..(dst + n - 1) THEN m[i - dst + src]
          ELSE IF i - 1 \in src..(src + n - 1) THEN 0 ELSE m[i]]
=============================================================================
