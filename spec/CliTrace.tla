------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* The command line tool. The state holds, for each root link that was     *)
(* printed, the stream behind it: the events (each known by its number     *)
(* within the run that wrote it), the printed tree, and the passwords; and *)
(* the lost blocks that were not written again.                            *)
(* A printed node is [t, n, s, lk, k, ch] with t = B, L, PB, PL (the       *)
(* latter two are forgotten), n the number of elements, s whether it is    *)
(* sealed, lk its link (0: none), k the number of children it claims.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, st, lost, ob
vars == <<ep, i, st, lost, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Evs == Tr[ep].ev

Tags(k) == CASE k % 15 = 0 -> {"fizzbuzz"} [] k % 3 = 0 -> {"fizz"} [] k % 5 = 0 -> {"buzz"}
             [] OTHER -> {"we.like.long.identifiers.because.they.seem.professional"}

\* ------------------------------------------------------------ trees
RECURSIVE Pre(_)
Pre(nd) == <<nd>> \o FlattenSeq([j \in DOMAIN nd.ch |-> Pre(nd.ch[j])])
RECURSIVE Edges(_, _)
Edges(nd, id) ==
  UNION {LET cid == id + 1 + FoldLeft(LAMBDA a, c : a + Len(Pre(c)), 0, SubSeq(nd.ch, 1, j - 1)) IN
         {<<id, cid>>} \cup Edges(nd.ch[j], cid) : j \in DOMAIN nd.ch}
Starts(nd, off) == [j \in DOMAIN nd.ch |-> off + FoldLeft(LAMBDA a, c : a + c.n, 0, SubSeq(nd.ch, 1, j - 1))]
\* the lowest printed nodes with their offsets
RECURSIVE Tips(_, _)
Tips(nd, off) ==
  IF nd.ch = <<>> THEN <<[nd |-> nd, o |-> off]>>
  ELSE LET at == Starts(nd, off) IN FlattenSeq([j \in DOMAIN nd.ch |-> Tips(nd.ch[j], at[j])])
RECURSIVE Fits(_)
Fits(nd) ==
  CASE nd.t = "B" -> /\ nd.k = Len(nd.ch) /\ nd.k > 0 /\ nd.lk # 0
                     /\ nd.n = FoldLeft(LAMBDA a, c : a + c.n, 0, nd.ch)
                     /\ \A j \in DOMAIN nd.ch : Fits(nd.ch[j])
    [] nd.t = "L" -> nd.ch = <<>> /\ nd.lk # 0 /\ nd.n > 0
    [] OTHER -> nd.ch = <<>> /\ nd.lk = 0 /\ nd.n > 0
\* offsets which are forgotten
Gone(nd) == UNION {{x.o + k : k \in 0..(x.nd.n - 1)} : x \in {y \in ToSet(Tips(nd, 0)) : y.nd.t \in {"PL", "PB"}}}
\* offsets which can not be reached
RECURSIVE Unreach(_, _)
Unreach(nd, off) ==
  IF nd.lk \in lost THEN off..(off + nd.n - 1)
  ELSE LET at == Starts(nd, off) IN UNION {Unreach(nd.ch[j], at[j]) : j \in DOMAIN nd.ch}
Same(a, b) == a = [b EXCEPT !.s = a.s]      \* but for the sealed flag of the root
Links(nd) == {x.lk : x \in ToSet(Pre(nd))} \ {0}
LinkedBr(nd) == {x.lk : x \in {y \in ToSet(Pre(nd)) : y.t = "B"}}

\* ------------------------------------------------------------ commands
Known(e) == e.root \in DOMAIN st
S(e) == st[e.root]
Base(e) == IF e.from > 0 THEN S(e) ELSE [els |-> <<>>, tree |-> <<>>, ip |-> e.ip, vp |-> e.vp, odd |-> FALSE]
BaseGone(e) == IF e.from > 0 THEN Gone(S(e).tree) ELSE {}
Added(e) == [k \in 1..(e.count * e.batches) |-> k - 1]
Els(e) == IF e.op = "build" THEN Base(e).els \o Added(e) ELSE S(e).els
Opens(e) == e.from = 0 \/ (S(e).ip = e.ip /\ e.root \notin lost)      \* the root can be read
There(e) == SelectSeq([k \in 1..Len(S(e).els) |-> k], LAMBDA k : k - 1 \notin Gone(S(e).tree))
Shown(x, k, n) == x.o = k - 1 /\ x.l = n /\ x.lo = n /\ x.hi = n /\ ToSet(x.tags) = Tags(n) /\ Len(x.tags) = 1 /\ x.v = ToString(n)
\* the values printed for the events at the given positions
Prints(e, ks) == Len(e.out) = Len(ks) /\ \A j \in DOMAIN ks : Shown(e.out[j], ks[j], S(e).els[ks[j]])
Every(ks) == SubSeq([j \in 1..((Len(ks) + 999) \div 1000) |-> ks[(j - 1) * 1000 + 1]], 1, (Len(ks) + 999) \div 1000)
Tree(e) == Last(e.trees)
Whole(e) == Links(S(e).tree) \cap lost = {}
\* full leaves before all others with nothing to keep
Full(nd) ==
  LET x == Tips(nd, 0)
      lf == SelectSeq([j \in DOMAIN x |-> j], LAMBDA j : ~x[j].nd.s)
      n == IF lf = <<>> THEN Len(x) ELSE lf[1] - 1
  IN SubSeq(x, 1, n)

Reads(e, ks) ==
  IF ~Opens(e) THEN F(e.rc # 0 /\ e.out = <<>>, "read of what can not be read")
  ELSE IF ~Whole(e) \/ (S(e).vp # e.vp /\ ks # <<>>) THEN F(e.rc # 0, "unreadable data not reported")
  ELSE F(e.rc = 0 /\ Prints(e, IF e.op = "dump-values" THEN ks ELSE Every(ks)), "printed events")

Check(e) ==
  CASE e.op = "build" ->
         IF ~Opens(e) THEN F(e.rc # 0, "build on what can not be read")
         ELSE IF Base(e).odd \/ (e.from > 0 /\ ~Whole(e)) THEN {}
         ELSE IF Els(e) = <<>> THEN F(e.rc = 0 /\ e.trees = <<>>, "build of nothing")
         ELSE F(e.rc = 0 /\ e.fine /\ Len(e.trees) = 1 /\ Fits(Tree(e)) /\ Tree(e).n = Len(Els(e)) /\ Gone(Tree(e)) = BaseGone(e)
                /\ \A x \in ToSet(Tips(Tree(e), 0)) : x.nd.t = "L" => x.nd.n <= 10, "tree that was built")
    [] e.op = "dump" ->
         IF ~Opens(e) THEN F(e.rc # 0 /\ e.trees = <<>>, "dump of what can not be read")
         ELSE IF LinkedBr(S(e).tree) \cap lost # {} THEN F(e.rc # 0, "unreadable branch not reported")
         ELSE F(e.rc = 0 /\ e.fine /\ Len(e.trees) = 1 /\ Same(Tree(e), S(e).tree), "dumped tree")
    [] e.op = "dump-values" -> Reads(e, There(e))
    [] e.op = "stream" -> Reads(e, There(e))
    [] e.op = "filter" ->
         LET ks == SelectSeq(There(e), LAMBDA k : \E t \in ToSet(e.tags) : t \in Tags(S(e).els[k])) IN
         IF ~Opens(e) THEN F(e.rc # 0 /\ e.out = <<>>, "read of what can not be read")
         ELSE IF ~Whole(e) THEN {}
         ELSE IF S(e).vp # e.vp /\ ks # <<>> THEN F(e.rc # 0, "unreadable data not reported")
         ELSE F(e.rc = 0 /\ Prints(e, Every(ks)), "printed events")
    [] e.op = "graph" ->
         IF ~Opens(e) THEN F(e.rc # 0, "graph of what can not be read")
         ELSE IF LinkedBr(S(e).tree) \cap lost # {} THEN {}
         ELSE LET p == Pre(S(e).tree) IN
              F(/\ e.rc = 0 /\ ~e.odd /\ Len(e.nodes) = Len(p)
                /\ \A j \in DOMAIN p : LET leaf == p[j].t \in {"L", "PL"} IN
                     /\ e.nodes[j].id = j - 1
                     /\ e.nodes[j].label = IF leaf THEN p[j].n ELSE j - 1
                     /\ e.nodes[j].shape = IF leaf THEN "circle" ELSE "box"
                     /\ (j > 1 => e.nodes[j].grey = p[j].s), "nodes of the graph")
              \cup F(ToSet(e.edges) = Edges(S(e).tree, 0) /\ Len(e.edges) = Len(p) - 1, "edges of the graph")
    [] e.op = "dump-block" ->
         LET x == {y \in ToSet(Pre(S(e).tree)) : y.lk = e.lk}
             nd == CHOOSE y \in x : TRUE
             key == IF nd.t = "L" THEN S(e).vp ELSE S(e).ip
             at == CHOOSE y \in ToSet(Tips(S(e).tree, 0)) : y.nd.lk = e.lk
         IN IF e.lk \in lost THEN F(e.rc # 0, "dump of a block that is not there")
            ELSE IF e.vp # key THEN F(e.rc # 0 \/ e.odd, "dump with another password")
            ELSE F(e.rc = 0 /\ ~e.odd /\ e.lines = (IF nd.t = "L" THEN [j \in 1..nd.n |-> ToString(S(e).els[at.o + j])]
                                                    ELSE [j \in DOMAIN nd.ch |-> ToString(nd.ch[j].n)]), "dumped block")
    [] e.op = "bench" ->
         LET ks == 0..(e.count - 1) IN
         F(e.rc = 0 /\ e.lines = <<ToString(Cardinality({k \in ks : Tags(k) = {"fizz"}})),
                                   ToString(Cardinality({k \in ks : Tags(k) = {"fizzbuzz"} /\ k <= e.count \div 10}))>>, "events found")
    [] e.op = "forget" ->
         IF ~Opens(e) THEN F(e.rc # 0, "change of what can not be read")
         ELSE IF ~Whole(e) \/ S(e).odd THEN {}
         ELSE F(/\ e.rc = 0 /\ e.fine /\ ~e.odd /\ Len(e.trees) = 1 /\ Tree(e).n = Len(S(e).els)
                /\ (Tree(e).t = "B" => Fits(Tree(e)))
                /\ BaseGone(e) \subseteq Gone(Tree(e)) /\ \A k \in Gone(Tree(e)) \ BaseGone(e) : k < e.before
                /\ \A x \in ToSet(Full(S(e).tree)) : x.o + x.nd.n <= e.before => \A k \in x.o..(x.o + x.nd.n - 1) : k \in Gone(Tree(e)), "tree after forget")
    [] e.op = "pack" ->
         IF ~Opens(e) THEN F(e.rc # 0, "change of what can not be read")
         ELSE IF ~Whole(e) \/ S(e).odd THEN {}
         ELSE F(/\ e.rc = 0 /\ e.fine /\ ~e.odd /\ Len(e.trees) = 2 /\ Same(e.trees[1], S(e).tree)
                /\ Fits(Tree(e)) /\ Tree(e).n = Len(S(e).els) /\ Gone(Tree(e)) = BaseGone(e), "packed tree")
    [] e.op = "repair" ->
         IF ~Opens(e) THEN F(e.rc # 0, "repair of what can not be read")
         ELSE F(/\ e.rc = 0 /\ e.fine /\ ~e.odd /\ Len(e.trees) = 1 /\ Fits(Tree(e)) /\ Tree(e).n = Len(S(e).els)
                /\ Gone(Tree(e)) = BaseGone(e) \cup Unreach(S(e).tree, 0), "repaired tree")
    [] OTHER -> {}

\* repaired streams may have forgotten parts which are not full, and can not always be changed
Odd(e) == e.op = "repair" \/ (e.from > 0 /\ S(e).odd)
\* streams sent from one process to another
Gossip(e) ==
  F(e.up /\ e.sent >= e.n, "nothing was sent")
  \cup F(\A j \in DOMAIN e.out : e.out[j].o = j - 1 /\ e.out[j].l = j - 1 /\ e.out[j].lo = j - 1 /\ e.out[j].hi = j - 1
                                /\ ToSet(e.out[j].tags) = Tags(j - 1) /\ e.out[j].v = "xxx", "received events")
  \cup F(Len(e.out) <= e.sent /\ Len(e.out) >= e.n, "number of received events")

Init == ep \in DOMAIN Tr /\ i = 0 /\ st = <<>> /\ lost = {} /\ ob = {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     IF Tr[ep].gossip THEN ob' = {<<x, "gossip">> : x \in Gossip(e)} /\ UNCHANGED <<st, lost>>
     ELSE IF e.skip \/ (e.from > 0 /\ ~Known(e)) THEN ob' = {} /\ UNCHANGED <<st, lost>>
     ELSE
     /\ ob' = {<<x, e.op>> : x \in F(e.rc \in {0, 1, 101} \/ e.op = "lose", "crash") \cup Check(e)}
     /\ st' = IF e.new > 0 /\ e.rc = 0
                THEN (e.new :> [els |-> Els(e), tree |-> Tree(e), ip |-> e.ip, vp |-> e.vp, odd |-> Odd(e)]) @@ st
                ELSE st
     /\ lost' = ToSet(e.lost)
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
