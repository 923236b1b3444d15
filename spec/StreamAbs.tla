------------------------------ MODULE StreamAbs ------------------------------
(***************************************************************************)
(* What a user of a banyan stream relies on: the stream is a sequence of   *)
(* elements which can only grow at the end, or forget elements in place.   *)
(* BanyanMC (the algorithms) refines this specification; the traces of the *)
(* real code are checked against the same operators (BanyanTrace).         *)
(***************************************************************************)
EXTENDS BanyanOps

VARIABLES con,     \* the elements: <<key, value>> or Gone
          saved    \* contents to go back to, innermost transaction last

AbsAppended(pre, post, els) == post = pre \o [i \in DOMAIN els |-> <<els[i][1], els[i][2]>>]

\* some elements are forgotten, nothing else changes
AbsForgot(pre, post) ==
  /\ Len(post) = Len(pre)
  /\ \A i \in DOMAIN pre : post[i] = pre[i] \/ post[i] = Gone

AbsAppend == /\ Len(con') > Len(con)
             /\ SubSeq(con', 1, Len(con)) = con
             /\ UNCHANGED saved
AbsForget == AbsForgot(con, con') /\ UNCHANGED saved
AbsBegin  == saved' = Append(saved, con) /\ UNCHANGED con
AbsEnd    == saved # <<>> /\ saved' = Front(saved) /\ con' \in {con, Last(saved)}
AbsInit   == con = <<>> /\ saved = <<>>
AbsNext   == AbsAppend \/ AbsForget \/ AbsBegin \/ AbsEnd
AbsSpec   == AbsInit /\ [][AbsNext]_<<con, saved>>
=============================================================================
