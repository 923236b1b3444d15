-------------------------------- MODULE ConcMC -------------------------------
(***************************************************************************)
(* Readers of snapshots, in their own threads, next to a writer, over a    *)
(* shared store and a shared branch cache of limited capacity.             *)
(*                                                                         *)
(* Blocks are written one by one and a root is published when all of its   *)
(* blocks are there. A reader takes the root that is published when it     *)
(* starts and visits the tree depth first. Looking up, loading, unpacking  *)
(* into the scratch buffer, and offering the result to the cache are       *)
(* separate steps, between which anything may happen in other threads.     *)
(***************************************************************************)
EXTENDS BanyanOps

CONSTANTS LC, KB, SB, MAXN, MAXOPS, BATCHES,
          READERS,       \* threads
          CAP,           \* capacity of the cache, in branches
          OWNSCRATCH,    \* each thread has its own scratch buffer
          PUBLISHLAST    \* the root is published after its blocks were written

C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> 1000]

VARIABLES root,     \* published root
          con,      \* shadow content of the published root
          nx,       \* next block
          pend,     \* blocks still to be written by the writer
          next,     \* root and content to be published then
          ops,      \* operations done by the writer
          store,    \* nodes whose block has been written
          cache,    \* set of [id, nd]
          scratch,  \* buffer -> node that was unpacked into it last
          rd        \* reader -> [st, snap, con, stack, out]

vars == <<root, con, nx, pend, next, ops, store, cache, scratch, rd>>

Idle == [st |-> "idle", snap |-> Nil, con |-> <<>>, stack |-> <<>>, out |-> <<>>, runs |-> 0]
Buf(r) == IF OWNSCRATCH THEN r ELSE CHOOSE x \in READERS : TRUE

Init ==
  /\ root = Nil /\ con = <<>> /\ nx = 1 /\ pend = <<>> /\ next = [root |-> Nil, con |-> <<>>] /\ ops = 0
  /\ store = {} /\ cache = {} /\ scratch = [r \in READERS |-> Nil] /\ rd = [r \in READERS |-> Idle]

Key(v) == (v * 5) % 7
Els(k) == [i \in 1..k |-> <<Key(nx * 10 + i), nx * 10 + i, 1>>]
Pairs(els) == [i \in DOMAIN els |-> <<els[i][1], els[i][2]>>]
Size == [v \in 1..2000 |-> 1]

Start(r, con1) ==
  /\ r.ok
  /\ LET fresh == {x \in Nodes(r.node) : x.id >= nx} IN
     pend' = SetToSortSeq(fresh, LAMBDA a, b : a.id < b.id)
  /\ nx' = r.nx /\ next' = [root |-> r.node, con |-> con1] /\ ops' = ops + 1
  /\ IF PUBLISHLAST THEN UNCHANGED <<root, con>> ELSE root' = r.node /\ con' = con1
  /\ UNCHANGED <<store, cache, scratch, rd>>

WStart ==
  /\ pend = <<>> /\ next.root = root /\ ops < MAXOPS
  /\ \/ \E k \in BATCHES : Len(con) + k <= MAXN /\
          (Start(Extend(C, root, St(nx, Els(k), -1)), con \o Pairs(Els(k)))
           \/ Start(ExtendUnpacked(C, root, St(nx, Els(k), -1)), con \o Pairs(Els(k))))
     \/ root.t # "N" /\ ~IsPacked(root) /\ Start(Pack(C, root, St(nx, <<>>, -1), Size), con)
     \/ root.t # "N" /\ LET r == Retain([q |-> "range", form |-> "from", lo |-> 3, hi |-> 3], root, St(nx, <<>>, -1)) IN
                        r.nx > nx /\ Start(r, Flat(r.node))

WWrite ==
  /\ pend # <<>>
  /\ store' = store \cup {Head(pend)} /\ pend' = Tail(pend)
  /\ UNCHANGED <<root, con, nx, next, ops, cache, scratch, rd>>

WPublish ==
  /\ pend = <<>> /\ next.root # root
  /\ root' = next.root /\ con' = next.con
  /\ UNCHANGED <<nx, pend, next, ops, store, cache, scratch, rd>>

RStart(r) ==
  /\ rd[r].st \in {"idle", "done"} /\ rd[r].runs < 1 /\ root.t # "N"
  /\ rd' = [rd EXCEPT ![r] = [st |-> "visit", snap |-> root, con |-> con, stack |-> <<root>>, out |-> <<>>, runs |-> @.runs + 1]]
  /\ UNCHANGED <<root, con, nx, pend, next, ops, store, cache, scratch>>

Set(r, f) == rd' = [rd EXCEPT ![r] = f]
\* visit the node on top of the stack; what needs a block is loaded, or found in the cache
RVisit(r) ==
  LET s == rd[r] IN
  /\ s.st = "visit"
  /\ IF s.stack = <<>> THEN Set(r, [s EXCEPT !.st = "done"]) /\ UNCHANGED scratch
     ELSE LET nd == Head(s.stack) IN
       IF Purged(nd) THEN Set(r, [s EXCEPT !.stack = Tail(@), !.out = @ \o Flat(nd)]) /\ UNCHANGED scratch
       ELSE IF nd.t = "B" /\ \E x \in cache : x.id = nd.id
         THEN LET x == CHOOSE x \in cache : x.id = nd.id IN
              Set(r, [s EXCEPT !.stack = x.nd.ch \o Tail(@)]) /\ UNCHANGED scratch
       ELSE IF \E x \in store : x.id = nd.id
         THEN /\ Set(r, [s EXCEPT !.st = "loaded"])
              /\ scratch' = [scratch EXCEPT ![Buf(r)] = CHOOSE x \in store : x.id = nd.id]
       ELSE Set(r, [s EXCEPT !.st = "error"]) /\ UNCHANGED scratch
  /\ UNCHANGED <<root, con, nx, pend, next, ops, store, cache>>

\* parse what is in the scratch buffer; branches are offered to the cache, which may evict others
RUse(r) ==
  LET s == rd[r]
      nd == Head(s.stack)
      x == scratch[Buf(r)]
  IN /\ s.st = "loaded"
     /\ IF nd.t = "L" THEN Set(r, [s EXCEPT !.st = "visit", !.stack = Tail(@), !.out = @ \o Flat(x)]) /\ UNCHANGED cache
        ELSE /\ Set(r, [s EXCEPT !.st = "visit", !.stack = x.ch \o Tail(@)])
             /\ cache' \in {S \in SUBSET ({e \in cache : e.id # nd.id} \cup {[id |-> nd.id, nd |-> x]}) : Cardinality(S) <= CAP}
     /\ UNCHANGED <<root, con, nx, pend, next, ops, store, scratch>>

Next == WStart \/ WWrite \/ WPublish \/ \E r \in READERS : RStart(r) \/ RVisit(r) \/ RUse(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

C25 ==
  /\ \A r \in READERS : rd[r].st # "error" /\ (rd[r].st = "done" => rd[r].out = rd[r].con)
  /\ \A r \in READERS : IsPrefix(rd[r].out, rd[r].con)
  /\ \A x \in cache : x.nd.id = x.id
\* no reader is ever stuck
C25live == \A r \in READERS : rd[r].st \in {"visit", "loaded"} ~> rd[r].st = "done"
=============================================================================
