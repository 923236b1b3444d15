------------------------------- MODULE MultiMC --------------------------------
(***************************************************************************)
(* Several streams over one store and one cache of branches.               *)
(*                                                                         *)
(* Each stream has its own secret; some secrets may be equal. A block is   *)
(* identified by its bytes, that is by the secret, the position in the     *)
(* keystream and the content, so that equal blocks of two streams are one  *)
(* block. A stream may also be a fork of another one: it begins with its   *)
(* root and goes on by itself. What is read of a stream comes from the     *)
(* shared cache where possible.                                            *)
(***************************************************************************)
EXTENDS BanyanOps, Json

CONSTANTS LC, KB, SB, MAXN, MAXOPS, BATCHES,
          SECRETS,    \* secrets of the streams
          CAP,        \* capacity of the cache
          BYLINK,     \* entries of the cache are found by link, not by position
          OWN,        \* values of two streams differ
          GENPRINT

C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> 1000]
S == 1..2
VARIABLES sec, root, con, nx, store, cache, last, hist
vars == <<sec, root, con, nx, store, cache, last, hist>>
View == <<sec, root, con, nx, cache, last, Len(hist)>>

Link(s, nd) == <<sec[s], nd>>
Slot(l) == IF BYLINK THEN l ELSE <<l[2].id>>

Init ==
  /\ sec \in [S -> SECRETS] /\ sec[1] = Min(SECRETS)
  /\ root = [s \in S |-> Nil] /\ con = [s \in S |-> <<>>] /\ nx = [s \in S |-> 1]
  /\ store = {} /\ cache = {} /\ last = [s |-> 1, out |-> <<>>, ok |-> TRUE] /\ hist = <<>>

Key(v) == (v * 5) % 7
Val(s, i) == IF OWN THEN 100 * s + i ELSE i
Els(s, k) == [i \in 1..k |-> LET v == Val(s, Len(con[s]) + i) IN <<Key(v), v, 1>>]
Pairs(els) == [i \in DOMAIN els |-> <<els[i][1], els[i][2]>>]
Size == [v \in 1..400 |-> 1]

Step(s, op, k, r, c1) ==
  /\ r.ok
  /\ root' = [root EXCEPT ![s] = r.node] /\ con' = [con EXCEPT ![s] = c1] /\ nx' = [nx EXCEPT ![s] = r.nx]
  /\ store' = store \cup {Link(s, x) : x \in {y \in Nodes(r.node) : y.id >= nx[s]}}
  /\ hist' = Append(hist, [s |-> s, op |-> op, k |-> k])
  /\ UNCHANGED <<sec, cache, last>>

\* the content as found by way of the cache, and the branches which were loaded
RECURSIVE Walk(_, _)
Walk(s, nd) ==
  IF nd.t = "N" THEN [out |-> <<>>, ld |-> {}, ok |-> TRUE]
  ELSE IF Purged(nd) THEN [out |-> Flat(nd), ld |-> {}, ok |-> TRUE]
  ELSE LET l == Link(s, nd)
           hit == {x \in cache : Slot(x) = Slot(l)}
           x == IF nd.t = "B" /\ hit # {} THEN (CHOOSE y \in hit : TRUE)[2] ELSE nd
           sub == [j \in DOMAIN x.ch |-> Walk(s, x.ch[j])]
       IN [out |-> IF nd.t = "L" THEN Flat(nd) ELSE FlattenSeq([j \in DOMAIN sub |-> sub[j].out]),
           ld |-> (IF nd.t = "B" THEN {IF hit # {} THEN CHOOSE y \in hit : TRUE ELSE l} ELSE {}) \cup UNION {sub[j].ld : j \in DOMAIN sub},
           ok |-> (l \in store \/ (nd.t = "B" /\ hit # {})) /\ \A j \in DOMAIN sub : sub[j].ok]

Read(s) ==
  LET w == Walk(s, root[s]) IN
  /\ root[s].t # "N"
  /\ last' = [s |-> s, out |-> w.out, ok |-> w.ok]
  /\ cache' \in {X \in SUBSET (cache \cup w.ld) : Cardinality(X) <= CAP}
  /\ hist' = Append(hist, [s |-> s, op |-> "read", k |-> 0])
  /\ UNCHANGED <<sec, root, con, nx, store>>

Next ==
  /\ Len(hist) < MAXOPS
  /\ \/ \E s \in S : \E k \in BATCHES :
          /\ Len(con[s]) + k <= MAXN
          /\ \/ Step(s, "extend", k, Extend(C, root[s], St(nx[s], Els(s, k), -1)), con[s] \o Pairs(Els(s, k)))
             \/ Step(s, "extend_unpacked", k, ExtendUnpacked(C, root[s], St(nx[s], Els(s, k), -1)), con[s] \o Pairs(Els(s, k)))
     \/ \E s \in S : root[s].t # "N" /\ ~IsPacked(root[s]) /\ Step(s, "pack", 0, Pack(C, root[s], St(nx[s], <<>>, -1), Size), con[s])
     \/ \E s \in S : root[s].t # "N" /\ Read(s)
     \* the second stream goes on from the root of the first one
     \/ /\ root[1].t # "N" /\ root[2].t = "N" /\ sec[1] = sec[2]
        /\ root' = [root EXCEPT ![2] = root[1]] /\ con' = [con EXCEPT ![2] = con[1]] /\ nx' = [nx EXCEPT ![2] = nx[1]]
        /\ hist' = Append(hist, [s |-> 2, op |-> "fork", k |-> 0])
        /\ UNCHANGED <<sec, store, cache, last>>
Spec == Init /\ [][Next]_vars

C33 ==
  /\ last.ok
  /\ last.out # <<>> => IsPrefix(last.out, con[last.s])
  /\ \A s \in S : TreeOK(C, root[s]) /\ Flat(root[s]) = con[s]
\* a read gives what the stream contains
C33read == [][last' # last => last'.out = con[last'.s] /\ last'.ok]_vars
GenAll == (GENPRINT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson([sec |-> <<sec[1], sec[2]>>, ops |-> hist])>>)
=============================================================================
