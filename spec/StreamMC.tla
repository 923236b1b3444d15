------------------------------- MODULE StreamMC ------------------------------
(***************************************************************************)
(* Streaming over the versions of a growing stream, forwards and backwards *)
(* (stream_trees_chunked, stream_trees_chunked_reverse), with reads that   *)
(* fail at any block while a version is read. The adapter swallows the     *)
(* error, and goes on with the next version where it stopped.              *)
(***************************************************************************)
EXTENDS BanyanOps, Json

CONSTANTS LC, KB, SB, MAXN, MAXGROW, MAXPOLL, BATCHES, FAULTS, GENPRINT

C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> 100]

VARIABLES root,    \* newest version
          vers,    \* number of versions (changes of the stream)
          par,     \* parameters of the stream: direction, range, query
          pos,     \* where to go on: next offset (forwards), last offset (backwards)
          out,     \* chunks delivered
          con1,    \* content of the version the first chunk came from
          low,     \* everything before / after was covered
          whole,   \* count of the largest version that was read without error
          ended,
          polls,
          hist
vars == <<root, vers, par, pos, out, con1, low, whole, ended, polls, hist>>
View == <<root, vers, par, pos, out, con1, low, whole, ended, polls>>

KeyOf(v) == (v * 5) % 7
Els(k) == [i \in 1..k |-> <<KeyOf(root.n + i), root.n + i, 1>>]
Queries == {[q |-> "all"], [q |-> "keys", rs |-> <<<<2, 4>>>>]}
Ranges == {<<0, INF>>, <<1, 3>>, <<2, INF>>, <<0, 2>>}
Params == [rev : BOOLEAN, r : Ranges, q : Queries]

Init == /\ root = Nil /\ vers = 0 /\ par \in Params
        /\ pos = (IF par.rev THEN par.r[2] ELSE par.r[1])
        /\ out = <<>> /\ con1 = <<>> /\ low = (IF par.rev THEN -1 ELSE 0)
        /\ whole = 0 /\ ended = FALSE /\ polls = 0 /\ hist = <<>>

Log(h) == hist' = Append(hist, h)
Grow(op, k) ==
  /\ vers < MAXGROW /\ root.n + k <= MAXN
  /\ LET st == St(1, Els(k), -1) IN
     root' = (IF op = "extend" THEN Extend(C, root, st) ELSE ExtendUnpacked(C, root, st)).node
  /\ vers' = vers + 1
  /\ Log([op |-> op, k |-> k])
  /\ UNCHANGED <<par, pos, out, con1, low, whole, ended, polls>>

\* read the newest version; the f-th block read fails (0: none)
Poll(f) ==
  LET q == [q |-> "and", b |-> par.q,
            a |-> [q |-> "range", form |-> "in",
                   lo |-> IF par.rev THEN par.r[1] ELSE pos,
                   hi |-> IF par.rev THEN IF pos = INF THEN INF ELSE pos + 1 ELSE IF par.r[2] = INF THEN INF ELSE par.r[2] + 1]]
      r == ChunksE({}, par.rev, q, root, 0, IF f = 0 THEN -1 ELSE f)
      last(c) == IF par.rev THEN c.lo <= par.r[1] ELSE c.hi > par.r[2]
      stop == {i \in DOMAIN r.out : last(r.out[i])}
      got == IF stop = {} THEN r.out ELSE SubSeq(r.out, 1, Min(stop))
  IN /\ ~ended /\ polls < MAXPOLL /\ root.t # "N"
     /\ f > 0 => r.err
     /\ out' = out \o got
     /\ con1' = IF out = <<>> /\ got # <<>> THEN Flat(root) ELSE con1
     /\ pos' = IF par.rev THEN Min({pos} \cup {Max({0, got[i].lo - 1}) : i \in DOMAIN got})
               ELSE Max({pos} \cup {got[i].hi : i \in DOMAIN got})
     /\ low' = IF par.rev THEN (IF got = <<>> THEN low ELSE IF low = -1 THEN Last(got).lo ELSE Min({low, Last(got).lo}))
               ELSE Max({low} \cup {got[i].hi : i \in DOMAIN got})
     /\ ended' = (stop # {})
     /\ whole' = IF r.err THEN whole ELSE Max({whole, root.n})
     /\ polls' = polls + 1
     /\ Log([op |-> "poll", f |-> f])
     /\ UNCHANGED <<root, vers, par>>

Next == \/ \E op \in {"extend", "extend_unpacked"}, k \in BATCHES : Grow(op, k)
        \/ \E f \in FAULTS : Poll(f)
Spec == Init /\ [][Next]_vars

GenAll == (GENPRINT /\ polls = MAXPOLL) => PrintT(<<"HIST", ToJson([par |-> par, ops |-> hist])>>)
-----------------------------------------------------------------------------
InR(m) == SelectSeq(m, LAMBDA e : par.r[1] <= e[1] /\ e[1] <= par.r[2])
Data(s) == FlattenSeq([i \in DOMAIN s |-> s[i].d])

\* every matching element exactly once, in order, up to where the stream has come
Once ==
  IF ~par.rev
    THEN Data(out) = SelectSeq(InR(Filter(par.q, Flat(root))), LAMBDA e : e[1] < low)
    ELSE out # <<>> => Data(Reverse(out)) = SelectSeq(InR(Filter(par.q, con1)), LAMBDA e : e[1] >= low)
\* nothing is held back
Prompt == IF par.rev THEN whole > 0 => ended ELSE ended \/ low >= whole
\* it ends when (and only when) the end of the range is covered
Ends == IF par.rev THEN ended <=> (out # <<>> /\ low <= par.r[1]) ELSE ended <=> low > par.r[2]
C12 == Once /\ Prompt /\ Ends
=============================================================================
