------------------------------- MODULE SeqOps --------------------------------
(***************************************************************************)
(* How a sequence is filled from the items that are waiting. An item has   *)
(* len bytes. Filling stops before an item that does not fit, when there   *)
(* are enough keys, and after any item with which the compressed form has  *)
(* reached its size, which the specification leaves open.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Bytes(xs) == FoldLeft(LAMBDA a, x : a + x.len, 0, xs)
\* after k of the items, nothing more is taken, whatever the compressed size is
Stops(vals, k, S0, held, us, max) ==
  \/ k = Len(vals)
  \/ held + k >= max
  \/ vals[k + 1].len > us
  \/ S0 + Bytes(SubSeq(vals, 1, k)) + vals[k + 1].len > us
Natural(vals, S0, held, us, max) == Min({k \in 0..Len(vals) : Stops(vals, k, S0, held, us, max)})
\* filling fails for an item that can never fit
TooBig(vals, k, held, us, max) == k < Len(vals) /\ held + k < max /\ vals[k + 1].len > us
\* whether the sequence is finished, given that k were taken
Full(vals, k, S0, held, us, max, compressed) ==
  \/ compressed
  \/ held + k >= max
  \/ S0 + Bytes(SubSeq(vals, 1, k)) >= us
  \/ k < Len(vals) /\ S0 + Bytes(SubSeq(vals, 1, k)) + vals[k + 1].len > us
Selected(xs, mask) ==
  LET js == SelectSeq([j \in DOMAIN xs |-> j], LAMBDA j : j <= Len(mask) /\ mask[j] = 1)
  IN [j \in DOMAIN js |-> xs[js[j]]]
=============================================================================
