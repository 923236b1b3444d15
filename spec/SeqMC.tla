-------------------------------- MODULE SeqMC --------------------------------
(***************************************************************************)
(* Appending in batches with sequences as leaves: items wait in batches,   *)
(* the last leaf is filled on while it is not full, and the compressed     *)
(* size is chosen freely.                                                  *)
(***************************************************************************)
EXTENDS SeqOps, TLC, Json
CONSTANTS LENS, US, MAXK, MAXITEMS, COMPRESS, GENPRINT

VARIABLES wait, leaves, full, all, hist
vars == <<wait, leaves, full, all, hist>>
View == <<wait, leaves, full, all>>

Init == wait = <<>> /\ leaves = <<>> /\ full = TRUE /\ all = <<>> /\ hist = <<>>
Arrive ==
  /\ wait = <<>> /\ Len(all) < MAXITEMS
  /\ \E n \in 1..(MAXITEMS - Len(all)) : \E f \in [1..n -> LENS] :
       /\ wait' = [j \in 1..n |-> [id |-> Len(all) + j, len |-> f[j]]]
       /\ all' = all \o wait'
       /\ hist' = Append(hist, [j \in 1..n |-> f[j]])
  /\ UNCHANGED <<leaves, full>>
Fill ==
  /\ wait # <<>>
  /\ LET base == IF full THEN <<>> ELSE Last(leaves)
         S0 == Bytes(base) held == Len(base)
         n == Natural(wait, S0, held, US, MAXK)
     IN \E k \in 0..n : \E c \in COMPRESS :
          /\ ~TooBig(wait, n, held, US, MAXK)
          /\ k < n => k >= 1 /\ c
          /\ leaves' = (IF full THEN leaves ELSE Front(leaves)) \o <<base \o SubSeq(wait, 1, k)>>
          /\ full' = Full(wait, k, S0, held, US, MAXK, c)
          /\ wait' = SubSeq(wait, k + 1, Len(wait))
  /\ UNCHANGED <<all, hist>>
Next == Arrive \/ Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill)

C30 ==
  /\ FlattenSeq(leaves) \o wait = all
  /\ \A j \in DOMAIN leaves : Len(leaves[j]) <= MAXK /\ Bytes(leaves[j]) <= US
  /\ wait # <<>> => full \/ leaves = <<>> \/ Last(leaves) # <<>>
  \* without limits on the compressed size, leaves are as long as possible
  /\ COMPRESS = {FALSE} => \A j \in 1..(Len(leaves) - 1) :
       Len(leaves[j]) = MAXK \/ Bytes(leaves[j]) + (leaves[j + 1][1]).len > US \/ Bytes(leaves[j]) = US
\* everything gets stored
C30live == []<>(wait = <<>>)
GenAll == GENPRINT /\ wait = <<>> /\ Len(all) = MAXITEMS => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
