----------------------------- MODULE BanyanTrace -----------------------------
(***************************************************************************)
(* Checks traces recorded from the real code against the specification.    *)
(*                                                                         *)
(* The trace file has one episode per line: the configuration, all blocks  *)
(* written (decoded by an independent decoder), and the sequence of calls  *)
(* with their results. Each episode is one behaviour: there is one initial *)
(* state per episode, and each step consumes one event. The tree before    *)
(* and after a call is reconstructed from the blocks, so that each         *)
(* property is judged from what was actually stored and returned.          *)
(* For the property PROP, ob is the set of obligations the event broke.    *)
(***************************************************************************)
EXTENDS BanyanOps, Json, IOUtils

CONSTANT PROP

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ep,     \* episode
          i,      \* events consumed
          rt,     \* index record of the root of the builder
          saved,  \* root records of the open transactions
          snaps,  \* root records of the snapshots
          lost,   \* blocks which are not there or garbled
          fl,     \* what happened so far: set of "failed", "rr", "rel", "rep", "stale"
          oth,    \* content of other streams over the same store and caches
          used,   \* keystream used so far: <<start, length, hash>>
          ob      \* obligations broken by the last event

vars == <<ep, i, rt, saved, snaps, lost, fl, oth, used, ob>>

Bl == Tr[ep].blocks
Evs == Tr[ep].ev
Cf == Tr[ep].cfg
\* no block holds more than this uncompressed
MaxBlock == 16777216
Mus == IF Cf.mus > MaxBlock THEN MaxBlock ELSE Cf.mus
C == [lc |-> Cf.lc, kb |-> Cf.kb, sb |-> Cf.sb, mus |-> Mus]

NoRec == [t |-> "N", link |-> 0, sealed |-> FALSE, level |-> -1, count |-> 0,
          keys |-> <<>>, kl |-> <<>>, sums |-> <<>>, vb |-> 0, kb |-> 0]

F(cond, label) == IF cond THEN {} ELSE {label}

(***************************************************************************)
(* Reconstruction                                                          *)
(***************************************************************************)
RECURSIVE Dec(_, _)
Dec(B, x) ==
  IF x.t = "N" THEN Nil
  ELSE LET base == [t |-> x.t, id |-> x.link, s |-> x.sealed, lv |-> x.level, n |-> x.count,
                    keys |-> x.keys, sums |-> x.sums, vals |-> <<>>, w |-> 0, ch |-> <<>>]
       IN IF x.link = 0 THEN base
          ELSE IF x.link < 0 \/ x.link > Len(B) \/ B[x.link].k # x.t THEN [base EXCEPT !.t = "X"]
          ELSE IF x.t = "L" THEN [base EXCEPT !.vals = B[x.link].vals, !.w = B[x.link].ul]
          ELSE [base EXCEPT !.ch = TLCEval([j \in DOMAIN B[x.link].ch |-> Dec(B, B[x.link].ch[j])])]

Tree(x) == Dec(Bl, x)
Pairs(els) == [j \in DOMAIN els |-> <<els[j][1], els[j][2]>>]

\* parts of the unfinished part of the tree were forgotten by repair
Taint(nd) == \E x \in Nodes(nd) : ~x.s /\ x.id = 0

\* sizes of the values as offered
SizeTab == [j \in DOMAIN Evs |-> IF "els" \in DOMAIN Evs[j] THEN Evs[j].els ELSE <<>>]
Sizes ==
  LET all == FlattenSeq(SizeTab)
      set == ToSet(all)
      vs == {x[2] : x \in set}
  IN TLCEval([v \in vs |-> (CHOOSE e \in set : e[2] = v)[3]])

Grow == {"extend", "extend_unpacked", "push"}
Muts == Grow \cup {"pack", "retain", "repair"}
Reads == {"get", "collect", "count", "iter", "chunk", "index", "roots", "left_roots",
          "is_packed", "check", "graph"}

Clean(e) == e.flt = 0
\* the tree a read is about
SnapOf(e) == IF e.t = 0 \/ snaps = <<>> THEN 0 ELSE ((e.t - 1) % Len(snaps)) + 1

(***************************************************************************)
(* What reads have to return for content f                                 *)
(***************************************************************************)
GetExp(e, f) == IF e.off >= Len(f) \/ f[e.off + 1] = Gone THEN <<>> ELSE <<f[e.off + 1]>>
CollectExp(e, f) == IF e.off >= Len(f) THEN <<>> ELSE SubSeq(f, e.off + 1, Len(f))

LeafAt(nd) == SelectSeq(NodeSeq(nd), LAMBDA x : x.nd.t = "L" \/ x.nd.t = "X" \/ Purged(x.nd))
\* matches, with the leaves in reverse order
FilterRev(q, nd) ==
  LET m == Filter(q, Flat(nd))
      ls == Reverse(LeafAt(nd))
  IN FlattenSeq([j \in DOMAIN ls |->
        SelectSeq(m, LAMBDA x : ls[j].o <= x[1] /\ x[1] < ls[j].o + ls[j].nd.n)])
IterExp(e, nd) == IF e.api = "rev" THEN FilterRev(e.q, nd) ELSE Filter(e.q, Flat(nd))

IsRev(e) == e.api \in {"rev", "stream_rev"}
Asc(e) == IF IsRev(e) THEN Reverse(e.out) ELSE e.out

\* chunks in ascending order tile the first h elements from lo0, with the matches of their range
Tiles(q, out, f) ==
  /\ \A j \in DOMAIN out : out[j].lo < out[j].hi
  /\ \A j \in 2..Len(out) : out[j - 1].hi = out[j].lo
  /\ LET m == Filter(q, f) IN
     \A j \in DOMAIN out : out[j].d = SelectSeq(m, LAMBDA x : out[j].lo <= x[1] /\ x[1] < out[j].hi)
ExtraOK(out, nd) ==
  LET ns == ToSet(NodeSeq(nd)) IN
  \A j \in DOMAIN out : \E x \in ns :
     /\ x.o = out[j].lo /\ x.o + x.nd.n = out[j].hi
     /\ out[j].x = <<x.nd.lv, IF Purged(x.nd) THEN 1 ELSE 0, x.nd.n>>
Covers(out, n) == IF n = 0 THEN out = <<>> ELSE out # <<>> /\ out[1].lo = 0 /\ out[Len(out)].hi = n

IterClean(e) == F(e.r = "ok", "call failed") \cup F(e.errs = 0, "error reported") \cup F(e.end = "done", "does not end")

\* elements read are right (random access, iteration from the start)
ReadElems(e, nd) ==
  LET f == Flat(nd) IN
  IF ~Clean(e) THEN {}
  ELSE CASE e.op = "get" -> F(e.r = "ok", "get failed") \cup (IF e.r = "ok" THEN F(e.out = GetExp(e, f), "get") ELSE {})
    [] e.op = "collect" -> F(e.r = "ok", "collect failed") \cup (IF e.r = "ok" THEN F(e.out = CollectExp(e, f), "collect") ELSE {})
    [] e.op = "count" -> F(e.r = "ok" /\ e.out = <<Len(f), nd.lv, IF Len(f) = 0 THEN 1 ELSE 0, nd.id>>, "count")
    [] e.op = "iter" /\ e.api = "from" -> IterClean(e) \cup F(e.out = Filter([q |-> "all"], f), "iter_from")
    [] OTHER -> {}
ReadFilter(e, nd) ==
  IF ~Clean(e) THEN {}
  ELSE CASE e.op = "iter" -> IterClean(e) \cup F(e.out = IterExp(e, nd), "filtered iteration")
    [] e.op = "chunk" -> IterClean(e) \cup
         F(FlattenSeq([j \in DOMAIN e.out |-> Asc(e)[j].d]) = Filter(e.q, Flat(nd)), "filtered chunks")
    [] OTHER -> {}
ReadChunks(e, nd) ==
  IF ~Clean(e) \/ e.op # "chunk" THEN {}
  ELSE IterClean(e)
       \cup F(Covers(Asc(e), nd.n), "range not covered")
       \cup F(Tiles(e.q, Asc(e), Flat(nd)), "chunks")
       \cup F(ExtraOK(e.out, nd), "extra data")
ReadAny(e, nd) == ReadElems(e, nd) \cup ReadFilter(e, nd) \cup ReadChunks(e, nd)

(***************************************************************************)
(* Content after changes                                                   *)
(***************************************************************************)
\* pre, post: trees
GrowOK(e, pre, post) ==
  LET big == \E j \in DOMAIN e.els : e.els[j][3] > Mus IN
  CASE e.r = "ok" ->
         F(Flat(post) = Flat(pre) \o Pairs(e.els), "content after append")
         \cup F(post.n = Len(Flat(pre)) + Len(e.els) /\ e.count = post.n /\ e.empty = (post.n = 0), "count after append")
    [] e.r = "panic" -> F(Taint(pre), "panic")
    [] OTHER -> F(e.flt > 0 \/ big \/ Taint(pre), "append failed")

HasGone(nd) == \E x \in Nodes(nd) : Purged(x)
PackOK(e, pre, post) ==
  F(e.r # "panic", "panic")
  \cup (IF e.r = "ok"
          THEN F(Flat(post) = Flat(pre) /\ e.count = Len(Flat(pre)), "content after pack")
               \cup F(IsPacked(post), "not packed")
               \cup F(IsPacked(pre) => e.root = rt /\ e.puts = <<>>, "pack of packed stream")
               \cup F({x.id : x \in ToSet(Roots(pre))} \subseteq {x.id : x \in Nodes(post)}, "sealed subtrees not reused")
          ELSE F(e.flt > 0 \/ HasGone(pre), "pack failed"))

Unread(e) == lost \cup {-g : g \in {x \in ToSet(e.gets) : x < 0}}

RetainOK(e, pre, post) ==
  LET f == Flat(pre)
      g == Flat(post)
      ls == LeafAt(pre)
      unfin == {j \in DOMAIN ls : ~ls[j].nd.s}
      first == IF unfin = {} THEN Len(ls) + 1 ELSE Min(unfin)
  IN F(e.r # "panic", "panic")
     \cup (IF e.r # "ok" THEN F(e.flt > 0, "retain failed")
        ELSE F(Len(g) = Len(f) /\ e.count = Len(f) /\ post.lv = pre.lv, "count after retain")
        \cup (IF Len(g) # Len(f) THEN {} ELSE
               F(\A j \in DOMAIN f : g[j] = f[j] \/ (g[j] = Gone /\ ~Sat(e.q, j - 1, f[j][1])),
                 "wrong elements forgotten or changed")
          \cup F(\A x \in ToSet(NodeSeq(post)) : x.nd.id = 0 /\ ~x.nd.s =>
                     \E y \in ToSet(NodeSeq(pre)) : y.o = x.o /\ y.nd.n = x.nd.n /\ y.nd.id = 0,
                 "unfinished node forgotten")
          \cup F(Taint(pre) \/ \A j \in DOMAIN ls :
                   (ls[j].nd.t = "L" /\ ls[j].nd.s /\ j < first /\
                    \A k \in 1..ls[j].nd.n : ~Sat(e.q, ls[j].o + k - 1, ls[j].nd.keys[k]))
                   => \A k \in 1..ls[j].nd.n : g[ls[j].o + k] = Gone,
                 "not forgotten")))

RepairOK(e, pre, post) ==
  LET un == Unread(e) IN
  F(e.r # "panic", "panic")
  \cup (IF e.r # "ok" THEN F(e.flt > 0 /\ e.att # <<>>, "repair failed")
        ELSE F(Flat(post) = FlatWithout(un, pre), "content after repair")
        \cup F(e.count = Len(Flat(pre)), "count after repair")
        \cup F(e.rep = TopLost(un, pre), "report")
        \cup F(BlockIds(post) \cap un = {}, "unavailable data left")
        \cup F(TopLost(un, pre) = 0 => e.root = rt /\ e.puts = <<>>, "changed without need"))

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
O01(e) ==
  IF e.op \in Grow THEN GrowOK(e, Tree(rt), Tree(e.root))
  ELSE IF e.op \in Reads THEN ReadElems(e, Tree(e.root)) ELSE {}

O02(e) ==
  IF e.op = "pack" THEN PackOK(e, Tree(rt), Tree(e.root))
  ELSE IF e.op = "is_packed" /\ Clean(e) THEN F(e.r = "ok" /\ e.out = <<IF IsPacked(Tree(e.root)) THEN 1 ELSE 0>>, "is_packed")
  ELSE {}

O03(e) == IF e.op \in {"iter", "chunk"} THEN ReadFilter(e, Tree(e.root)) ELSE {}
O04(e) == IF e.op = "chunk" THEN ReadChunks(e, Tree(e.root)) ELSE {}

O05(e) ==
  IF e.op = "snap" THEN F(e.root = rt, "snapshot")
  ELSE IF e.op \in Reads /\ e.op \notin {"roots", "check"} /\ SnapOf(e) # 0
    THEN F(e.root = snaps[SnapOf(e)], "snapshot changed") \cup ReadAny(e, Tree(snaps[SnapOf(e)]))
  ELSE {}

\* the fields of a root that a reload has to give back
RootEq(a, b, rr) ==
  /\ a.t = b.t /\ a.link = b.link /\ a.level = b.level /\ a.count = b.count /\ a.sums = b.sums
  /\ rr \/ (a.vb = b.vb /\ a.kb = b.kb)
O06(e) ==
  CASE e.op = "reload" ->
         IF ~Clean(e) THEN {} ELSE F(e.r = "ok", "reload failed") \cup
           (IF e.r # "ok" THEN {} ELSE
             F(RootEq(e.root, rt, "rr" \in fl), "root after reload")
             \cup F(e.root.sealed = rt.sealed, "sealed state after reload")
             \cup F(Flat(Tree(e.root)) = Flat(Tree(rt)), "content after reload"))
    [] e.op = "load_tree" ->
         IF ~Clean(e) THEN {} ELSE F(e.r = "ok", "load_tree failed") \cup
           (IF e.r # "ok" THEN {} ELSE
             F(RootEq(e.root, e.from, "rr" \in fl), "root after load_tree")
             \cup F(Flat(Tree(e.root)) = Flat(Tree(e.from)), "content after load_tree"))
    [] "rel" \in fl /\ e.op \in Grow -> GrowOK(e, Tree(rt), Tree(e.root))
    [] "rel" \in fl /\ e.op = "pack" -> PackOK(e, Tree(rt), Tree(e.root))
    [] "rel" \in fl /\ e.op = "retain" -> RetainOK(e, Tree(rt), Tree(e.root))
    [] "rel" \in fl /\ e.op \in Reads -> ReadAny(e, Tree(e.root))
    [] OTHER -> {}

\* keystream of the blocks written or attempted by e
NewRanges(e, nb) ==
  LET b == [j \in 1..(e.nb - nb) |-> <<Bl[nb + j].off, Bl[nb + j].len, Bl[nb + j].h>>]
      a == [j \in DOMAIN e.att |-> <<e.att[j][1], e.att[j][2], e.att[j][4]>>]
  IN b \o a
NbBefore == IF i = 0 THEN 0 ELSE Evs[i].nb
Overlap(a, b) == a[1] < b[1] + b[2] /\ b[1] < a[1] + a[2] /\ a[3] # b[3]
O07(e) ==
  LET r == NewRanges(e, NbBefore) IN
  F(\A j \in DOMAIN r : \A k \in DOMAIN used : ~Overlap(r[j], used[k]), "keystream reused")
  \cup F(\A j, k \in DOMAIN r : j < k => ~Overlap(r[j], r[k]), "keystream reused within operation")
  \cup F(\A j \in (NbBefore + 1)..e.nb : Bl[j].why # "crypt", "recorded position is not the one used")

O08(e) ==
  CASE e.op \in Muts /\ e.r = "err" ->
         IF e.op # "push" THEN F(e.root = rt, "root changed by failed operation")
         ELSE LET f == Flat(Tree(rt)) g == Flat(Tree(e.root)) IN
              F(IsPrefix(f, g) /\ IsPrefix(SubSeq(g, Len(f) + 1, Len(g)), Pairs(e.els)), "failed push")
    [] e.op \in Muts /\ e.r = "panic" -> F(Taint(Tree(rt)), "panic")
    [] e.op = "txn_begin" -> F(e.root = rt, "begin")
    [] e.op = "txn_end" -> F(e.root = IF e.commit THEN rt ELSE Last(saved), IF e.commit THEN "commit" ELSE "rollback")
    [] e.r = "ok" /\ "failed" \in fl /\ e.op \in Grow -> GrowOK(e, Tree(rt), Tree(e.root))
    [] e.r = "ok" /\ "failed" \in fl /\ e.op = "pack" -> PackOK(e, Tree(rt), Tree(e.root))
    [] "failed" \in fl /\ e.op \in Reads -> ReadAny(e, Tree(e.root))
    [] OTHER -> {}

O09(e) ==
  CASE e.op = "retain" -> RetainOK(e, Tree(rt), Tree(e.root))
    [] "ret" \in fl /\ e.op \in Grow -> GrowOK(e, Tree(rt), Tree(e.root))
    [] "ret" \in fl /\ e.op \in {"reload"} /\ Clean(e) -> F(e.r = "ok" /\ Flat(Tree(e.root)) = Flat(Tree(rt)), "reload")
    [] "ret" \in fl /\ e.op \in Reads -> ReadAny(e, Tree(e.root))
    [] OTHER -> {}

O10(e) ==
  CASE e.op = "repair" -> RepairOK(e, Tree(rt), Tree(e.root))
    [] "rep" \in fl /\ e.op \in Reads -> ReadAny(e, Tree(e.root))
    [] OTHER -> {}

\* byte statistics of a branch record follow from the children in its block
BytesOK(x) ==
  IF x.t = "N" \/ x.link <= 0 \/ x.link > Len(Bl) THEN TRUE
  ELSE IF x.t = "L" THEN x.vb = Bl[x.link].len
  ELSE LET ch == Bl[x.link].ch IN
       /\ x.vb = SumSeq([j \in DOMAIN ch |-> ch[j].vb])
       /\ x.kb = SumSeq([j \in DOMAIN ch |-> ch[j].kb]) + Bl[x.link].size
NewKids(e) == {x \in UNION {ToSet(Bl[j].ch) : j \in (NbBefore + 1)..e.nb} : TRUE}
O11(e) ==
  IF e.op \in Muts \cup {"reload", "txn_end"} THEN
    LET post == Tree(e.root) IN
    F(TreeOK(C, post), "metadata")
    \cup F(e.lvl = post.lv /\ e.count = post.n, "level or count")
    \cup (IF "rr" \in fl \/ e.op \in {"retain", "repair"} THEN {}
          ELSE F(BytesOK(e.root) /\ \A x \in NewKids(e) : BytesOK(x), "byte statistics"))
  ELSE IF e.op = "check" /\ Clean(e) THEN F(Taint(Tree(e.root)) \/ (e.r = "ok" /\ e.out = <<0>>), "invariant check")
  ELSE IF e.op = "is_packed" /\ Clean(e)
    THEN F(e.r = "ok" /\ e.out = <<IF IsPacked(Tree(e.root)) THEN 1 ELSE 0>>, "is_packed")
  ELSE {}

(***************************************************************************)
(* Streaming over growing trees                                            *)
(***************************************************************************)
InRange(e, m) == SelectSeq(m, LAMBDA x : e.lo <= x[1] /\ x[1] <= e.hi)
Upto(m, a) == SelectSeq(m, LAMBDA x : x[1] < a)
From(m, a) == SelectSeq(m, LAMBDA x : x[1] >= a)

\* trees which were read completely
Whole(e) == {j \in 1..e.polled : e.hit[j] = 0 /\ e.roots[j].t # "N"}
Longest(e) == LET S == 1..e.polled IN CHOOSE j \in S : \A k \in S : e.roots[k].count <= e.roots[j].count

FwdOK(e) ==
  LET all == FlattenSeq([j \in DOMAIN e.out |-> e.out[j].d])
      f == Flat(Tree(e.roots[Longest(e)]))
      want == InRange(e, Filter(e.q, f))
      cov == Max({0} \cup {e.out[j].hi : j \in DOMAIN e.out})
      by(p) == FlattenSeq([j \in DOMAIN e.out |-> IF e.out[j].p <= p THEN e.out[j].d ELSE <<>>])
  IN F(e.r = "ok" /\ e.errs = 0 /\ e.end # "cap", "stream failed")
     \cup F(all = Upto(want, cov), "not exactly the matching elements once in order")
     \* the threaded stream reads ahead: p does not say which tree a chunk came from
     \cup F(e.kind = "threaded" \/ \A j \in Whole(e) : e.end = "done" \/ IsPrefix(Upto(want, e.roots[j].count), by(j)), "delayed or lost")
     \cup F(\A j \in Whole(e) : e.end = "done" \/ cov >= e.roots[j].count, "not covered")
     \cup F(e.kind = "threaded" \/ ((e.end = "done") <=> (cov > e.hi)), "end of stream")

PlainOK(e) ==
  LET all == [j \in DOMAIN e.flat |-> <<e.flat[j][1], e.flat[j][2], e.flat[j][3]>>]
      want == Filter(e.q, Flat(Tree(e.roots[Longest(e)])))
      by(p) == SelectSeq(e.flat, LAMBDA x : x[4] <= p)
  IN F(e.r = "ok" /\ e.errs = 0 /\ e.end = "pending", "stream failed")
     \cup F(IsPrefix(all, want), "not exactly the matching elements once in order")
     \cup F(\A j \in Whole(e) : Len(by(j)) >= Len(Upto(want, e.roots[j].count)), "delayed or lost")

RevOK(e) ==
  LET k == Len(e.out)
      all == FlattenSeq([j \in 1..k |-> e.out[k + 1 - j].d])
      low == Min({e.out[j].lo : j \in DOMAIN e.out})
      \* the tree the first chunk came from
      first == e.out[1].p
      want == InRange(e, Filter(e.q, Flat(Tree(e.roots[first]))))
  IN F(e.r = "ok" /\ e.errs = 0 /\ e.end # "cap", "stream failed")
     \cup (IF k = 0 THEN F(Whole(e) = {} /\ e.end = "pending", "nothing delivered")
           ELSE F(e.out[1].hi = e.roots[first].count, "does not begin at the end")
                \cup F(all = From(want, low), "not exactly the matching elements once in order")
                \cup F((e.end = "done") <=> (low <= e.lo), "end of stream")
                \cup F(Whole(e) = {} \/ e.end = "done", "not covered"))

O12(e) ==
  IF e.op # "stream" \/ e.polled = 0 THEN {}
  ELSE CASE e.kind = "plain" -> PlainOK(e)
         [] e.kind = "rev" -> RevOK(e)
         [] OTHER -> FwdOK(e)

(***************************************************************************)
(* Faults                                                                  *)
(***************************************************************************)
O13(e) ==
  LET nd == Tree(e.root) IN
  IF e.op \in Reads THEN
    F(e.r # "panic", "panic")
    \cup (IF Clean(e) THEN (IF e.op \in {"get", "collect", "count", "iter", "chunk"} THEN ReadAny(e, nd)
                            ELSE F(e.r = "ok", "error without need")
                                 \cup (IF e.op = "index" THEN IterClean(e) ELSE {}))
          ELSE IF e.op \in {"iter", "chunk", "index"} THEN
            F(e.r = "ok" /\ e.errs = 1 /\ e.after = 0 /\ e.end = "done", "not exactly one error at the end")
            \cup (CASE e.op = "iter" -> F(IsPrefix(e.out, IterExp(e, nd)), "wrong data before the error")
                    [] e.op = "chunk" ->
                       F(Tiles(e.q, Asc(e), Flat(nd)), "wrong data before the error")
                       \cup F(e.out = <<>> \/ (IF IsRev(e) THEN e.out[1].hi = nd.n ELSE e.out[1].lo = 0), "wrong data before the error")
                    [] e.op = "index" ->
                       F(IsPrefix([j \in DOMAIN e.out |-> e.out[j][2]],
                                  LET x == IndexNodes(e.q, nd, 0, e.api = "rev") IN [j \in DOMAIN x |-> x[j].id]),
                         "wrong data before the error"))
          ELSE F(e.r = "err", "not reported"))
  ELSE IF e.op \in (Muts \ {"repair"}) \cup {"reload", "load_tree"}
    THEN F(e.r # "panic" \/ Taint(Tree(rt)), "panic") \cup F(~Clean(e) => e.r # "ok", "not reported")
  ELSE {}

(***************************************************************************)
(* Blocks                                                                  *)
(***************************************************************************)
New(e) == (NbBefore + 1)..e.nb
LinksIn(b) ==
  IF b.k = "L" THEN ToSet(b.vl)
  ELSE {b.ch[j].link : j \in {x \in DOMAIN b.ch : b.ch[x].link # 0}} \cup UNION {ToSet(b.ch[j].kl) : j \in DOMAIN b.ch}
O14(e) == F(\A j \in New(e) : Bl[j].k = "X" \/ ToSet(Bl[j].links) = LinksIn(Bl[j]), "cleartext links")

O15(e) ==
  F(Cf.ik = Cf.vk \/ \A j \in New(e) : Bl[j].k = "X" \/ Bl[j].ro = (IF Bl[j].k = "L" THEN "v" ELSE "i"), "wrong key")
  \cup (IF e.op # "wrongkey" THEN {}
        ELSE IF e.which = "index" THEN F(e.r = "err" /\ e.load = "err" /\ e.n = 0 /\ e.keys = <<>>, "readable without index key")
        ELSE F(e.r = "ok" /\ e.load = "ok" /\ e.n = 0
               /\ e.keys = SelectSeq(FlatKeys(Tree(e.root)), LAMBDA k : k >= 0), "value key"))

IndexBrief(nd) == <<IF nd.t = "L" THEN 0 ELSE 1, nd.id, nd.lv, nd.n, IF nd.s THEN 1 ELSE 0>>
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE
               ELSE IF b = <<>> THEN FALSE
               ELSE IF Head(a) = Head(b) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
\* nodes with matching elements below them, and the root
RECURSIVE Needed(_, _, _)
Needed(q, nd, off) ==
  IF nd.t = "N" THEN {}
  ELSE LET sub == UNION {Needed(q, nd.ch[j], ChildOff(nd, off, j)) : j \in DOMAIN nd.ch} IN
       IF sub # {} THEN sub \cup {nd.id}
       ELSE IF nd.t = "L" /\ ~Purged(nd) /\ \E j \in DOMAIN nd.keys : Sat(q, off + j - 1, nd.keys[j]) THEN {nd.id}
       ELSE {}
O17(e) ==
  IF e.op # "index" \/ ~Clean(e) THEN {}
  ELSE LET nd == Tree(e.root)
           x == IndexNodes(e.q, nd, 0, e.api = "rev")
           exp == [j \in DOMAIN x |-> IndexBrief(x[j])]
       IN IterClean(e)
          \cup F(e.q.q = "all" => e.out = exp, "nodes")
          \cup F(IsSub(e.out, exp), "unexpected nodes or order")
          \cup F((Needed(e.q, nd, 0) \cup (IF nd.t = "N" THEN {} ELSE {nd.id})) \subseteq {e.out[j][2] : j \in DOMAIN e.out}, "nodes missing")

O18(e) ==
  IF e.op \notin Grow \cup {"pack"} THEN {}
  ELSE LET pre == Tree(rt)
           post == Tree(e.root)
           g == Flat(post)
           sz == Sizes
           ns == {x \in ToSet(NodeSeq(post)) : x.nd.id > NbBefore}
       IN F(e.op \in Grow /\ (\E j \in DOMAIN e.els : e.els[j][3] > Mus) => e.r # "ok", "too big value accepted")
          \cup (IF e.r # "ok" THEN {} ELSE
            UNION {LET nd == x.nd nx == x.o + nd.n + 1 IN
              IF nd.t = "L" THEN
                LET nofit == nx <= Len(g) /\ g[nx] # Gone /\ g[nx] # Bad /\ nd.w + sz[g[nx][2]] > Mus
                    full == nd.n >= Cf.lc \/ nd.w >= Mus \/ Bl[nd.id].len >= Cf.tls \/ nofit
                    \* single pushes on an unpacked stream do not see the next element
                    full1 == nd.n >= Cf.lc \/ nd.w >= Mus \/ Bl[nd.id].len >= Cf.tls
                IN F(Len(nd.vals) <= Cf.lc /\ nd.w <= Mus, "leaf too big")
                   \cup F(IF e.op = "push" THEN (full1 => nd.s) /\ (nd.s => full) ELSE nd.s = full, "leaf sealed")
              ELSE IF nd.t = "B" /\ IsPacked(pre) /\ e.op # "extend_unpacked"
                THEN F(Len(nd.ch) <= MaxBranch(C, nd.lv), "branch too big")
              ELSE {} : x \in ns})

RECURSIVE LeftIds(_)
LeftIds(nd) == IF nd.t = "B" /\ nd.ch # <<>> THEN Append(LeftIds(nd.ch[1]), nd.id) ELSE <<nd.id>>
O21(e) ==
  LET nd == Tree(e.root) IN
  IF e.op \notin {"roots", "left_roots"} \/ ~Clean(e) THEN {}
  ELSE IF e.r # "ok" THEN {"failed"}
  ELSE IF e.op = "left_roots" THEN
    F(nd.t = "N" => e.out = <<>>, "left roots of empty")
    \cup F(nd.t # "N" => [j \in DOMAIN e.out |-> e.out[j][2]] = LeftIds(nd), "left roots")
    \cup F(\A j \in DOMAIN e.out : \E x \in ToSet(NodeSeq(nd)) : x.o = 0 /\ IndexBrief(x.nd) = e.out[j], "left root data")
  ELSE LET rs == e.out
           at(j) == SumSeq([k \in 1..(j - 1) |-> rs[k][4]])
           total == at(Len(rs) + 1)
       IN F(\A j \in DOMAIN rs : rs[j][5] = 1, "root not sealed")
          \cup F(\A j \in 2..Len(rs) : rs[j][3] <= rs[j - 1][3], "levels increase")
          \cup F(\A j \in DOMAIN rs : \E x \in ToSet(NodeSeq(nd)) : x.o = at(j) /\ IndexBrief(x.nd) = rs[j], "not a prefix")
          \cup F(IsPacked(nd) /\ ~Taint(nd) => \A x \in ToSet(NodeSeq(nd)) : x.nd.t = "L" /\ x.nd.s => x.o < total, "sealed data missing")

O23(e) ==
  IF e.op \notin {"iter", "chunk", "get"} THEN {}
  ELSE LET nd == Tree(e.root)
           got == {IF x < 0 THEN -x ELSE x : x \in ToSet(e.gets)}
       IN IF e.op = "get" THEN F(got \subseteq PathTo(nd, e.off), "blocks off the path")
          ELSE F(got \subseteq (MayLoad(e.q, nd, 0) \cup {nd.id}), "block without match loaded")
               \cup F(e.q.q = "empty" => got \subseteq {nd.id}, "empty query")

\* the tree is the one the algorithms of the specification produce
O24(e) ==
  IF ~Cf.exact \/ e.op \notin {"extend", "extend_unpacked", "pack", "retain"} \/ e.r # "ok" THEN {}
  ELSE LET pre == Tree(rt)
           post == Tree(e.root)
           sz == Sizes
           st == St(Len(Bl) + 1, IF e.op \in Grow THEN e.els ELSE <<>>, -1)
           m == CASE e.op = "extend" -> Extend(C, pre, st)
                  [] e.op = "extend_unpacked" -> ExtendUnpacked(C, pre, st)
                  [] e.op = "pack" -> Pack(C, pre, st, sz)
                  [] e.op = "retain" -> Retain(e.q, pre, st)
           f == Flat(post)
       IN IF Taint(pre) THEN {}
          ELSE F(Shape(m.node) = Shape(post), "shape")
          \cup F(m.nx - (Len(Bl) + 1) = Len(e.puts), "number of blocks written")
          \cup F(IsPacked(post) /\ ~HasGone(post) =>
                   SealedTail(post) = SealedTail(Extend(C, Nil,
                      St(1, TLCEval([j \in DOMAIN f |-> <<f[j][1], f[j][2], sz[f[j][2]]>>]), -1)).node), "canonical form")

O25(e) ==
  IF e.op # "threads" THEN {}
  ELSE F(e.root = rt, "root") \cup UNION {
    LET o == e.obs[j] f == Flat(Tree(e.roots[o.ti])) IN
    F(o.k # "err" /\ o.k # "panic", "reader failed")
    \cup F(o.k = "collect" => o.out = f, "concurrent collect")
    \cup F(o.k = "filter" => o.out = Filter(e.q, f), "concurrent query") : j \in DOMAIN e.obs}
    \cup {}
O25g(e) == IF e.op \in Grow THEN GrowOK(e, Tree(rt), Tree(e.root)) ELSE {}

O26(e) == F(\A j \in New(e) : Bl[j].k # "X", "block format")
          \cup (IF e.op \in Muts THEN F(\A x \in Nodes(Tree(e.root)) : x.t # "X", "tree not readable") ELSE {})
          \* streams written by an earlier build are read and continued
          \cup CASE e.op = "load_fixture" ->
                     F(e.r = "ok", "earlier stream not readable")
                     \cup (IF e.r # "ok" THEN {}
                           ELSE F(RootEq(e.root, e.from, e.rr) /\ e.root.sealed = e.from.sealed, "root of earlier stream"))
                 [] "fix" \in fl /\ e.op \in Grow -> GrowOK(e, Tree(rt), Tree(e.root))
                 [] "fix" \in fl /\ e.op = "pack" -> PackOK(e, Tree(rt), Tree(e.root))
                 [] "fix" \in fl /\ e.op = "retain" -> RetainOK(e, Tree(rt), Tree(e.root))
                 [] "fix" \in fl /\ e.op \in Reads -> ReadAny(e, Tree(e.root))
                 [] OTHER -> {}

RECURSIVE Edges(_, _)
Edges(nd, id) ==
  FlattenSeq([j \in DOMAIN nd.ch |->
    LET cid == id + 1 + SumSeq([k \in 1..(j - 1) |-> Len(NodeSeq(nd.ch[k]))]) IN
    <<<<id, cid>>>> \o Edges(nd.ch[j], cid)])
\* several streams over one forest: each one contains what was done to it alone
OthAfter(e) ==
  CASE e.do = "new" -> <<>>
    [] e.do = "fork" -> Flat(Tree(rt))
    [] e.do \in Grow -> oth[e.s] \o Pairs(e.els2)
    [] OTHER -> oth[e.s]
OtherOK(e, f) ==
  F(e.r = "ok", "other stream failed")
  \cup (IF e.r # "ok" THEN {}
        ELSE F(e.out = f, "content of other stream") \cup F(e.flt2 = Filter(e.q, f), "query of other stream"))
O33(e) ==
  CASE e.op = "other" -> OtherOK(e, OthAfter(e))
    [] "oth" \in fl /\ e.op \in Grow -> GrowOK(e, Tree(rt), Tree(e.root))
    [] "oth" \in fl /\ e.op = "pack" -> PackOK(e, Tree(rt), Tree(e.root))
    [] "oth" \in fl /\ e.op = "retain" -> RetainOK(e, Tree(rt), Tree(e.root))
    [] "oth" \in fl /\ e.op = "reload" -> F(e.r = "ok" /\ Flat(Tree(e.root)) = Flat(Tree(rt)), "reload")
    [] "oth" \in fl /\ e.op \in Reads ->
         F(SnapOf(e) = 0 \/ e.root = snaps[SnapOf(e)], "snapshot changed") \cup ReadAny(e, Tree(e.root))
         \cup (IF e.op = "index" THEN O17(e) ELSE {})
    [] OTHER -> {}

O27(e) ==
  IF e.op # "graph" \/ ~Clean(e) \/ e.root.t = "N" THEN {}
  ELSE IF e.r # "ok" THEN {"failed"}
  ELSE LET nd == Tree(e.root) ns == NodeSeq(nd) IN
       F(e.out = [j \in DOMAIN ns |-> <<j - 1, ns[j].nd.lv, IF Purged(ns[j].nd) THEN 1 ELSE 0, ns[j].nd.n>>], "nodes")
       \cup F(ToSet(e.edges) = ToSet(Edges(nd, 0)) /\ Len(e.edges) = Len(ns) - 1, "edges")

Check(e) ==
  CASE PROP = "C01" -> O01(e) [] PROP = "C02" -> O02(e) [] PROP = "C03" -> O03(e)
    [] PROP = "C04" -> O04(e) [] PROP = "C05" -> O05(e) [] PROP = "C06" -> O06(e)
    [] PROP = "C07" -> O07(e) [] PROP = "C08" -> O08(e) [] PROP = "C09" -> O09(e)
    [] PROP = "C10" -> O10(e) [] PROP = "C11" -> O11(e) [] PROP = "C12" -> O12(e)
    [] PROP = "C13" -> O13(e) [] PROP = "C14" -> O14(e) [] PROP = "C15" -> O15(e)
    [] PROP = "C17" -> O17(e) [] PROP = "C18" -> O18(e) [] PROP = "C21" -> O21(e)
    [] PROP = "C23" -> O23(e) [] PROP = "C24" -> O24(e) [] PROP = "C25" -> O25(e) \cup O25g(e)
    [] PROP = "C26" -> O26(e) [] PROP = "C27" -> O27(e) [] PROP = "C33" -> O33(e)
    [] PROP = "ALL" -> UNION {
         {<<"C01", x>> : x \in O01(e)}, {<<"C02", x>> : x \in O02(e)}, {<<"C03", x>> : x \in O03(e)},
         {<<"C04", x>> : x \in O04(e)}, {<<"C05", x>> : x \in O05(e)}, {<<"C06", x>> : x \in O06(e)},
         {<<"C07", x>> : x \in O07(e)}, {<<"C08", x>> : x \in O08(e)}, {<<"C09", x>> : x \in O09(e)},
         {<<"C10", x>> : x \in O10(e)}, {<<"C11", x>> : x \in O11(e)}, {<<"C12", x>> : x \in O12(e)},
         {<<"C13", x>> : x \in O13(e)}, {<<"C14", x>> : x \in O14(e)}, {<<"C15", x>> : x \in O15(e)},
         {<<"C17", x>> : x \in O17(e)}, {<<"C18", x>> : x \in O18(e)}, {<<"C21", x>> : x \in O21(e)},
         {<<"C23", x>> : x \in O23(e)}, {<<"C24", x>> : x \in O24(e)}, {<<"C25", x>> : x \in O25(e) \cup O25g(e)},
         {<<"C26", x>> : x \in O26(e)}, {<<"C27", x>> : x \in O27(e)}, {<<"C33", x>> : x \in O33(e)}}

(***************************************************************************)
(* The behaviours: one per episode                                         *)
(***************************************************************************)
Init ==
  /\ ep \in DOMAIN Tr
  /\ i = 0 /\ rt = NoRec /\ saved = <<>> /\ snaps = <<>> /\ lost = {} /\ fl = {} /\ oth = [s \in 1..3 |-> <<>>] /\ used = <<>> /\ ob = {}

Next ==
  /\ i < Len(Evs)
  /\ LET e == Evs[i + 1] IN
     /\ i' = i + 1 /\ ep' = ep
     /\ ob' = {<<x, e.op>> : x \in Check(e)}
     /\ rt' = IF e.op \in Muts \cup {"reload", "load_fixture", "txn_begin", "txn_end", "threads"} THEN e.root ELSE rt
     /\ saved' = CASE e.op = "txn_begin" -> Append(saved, rt)
                   [] e.op = "txn_end" -> Front(saved)
                   [] OTHER -> saved
     /\ snaps' = CASE e.op = "snap" -> Append(snaps, e.root)
                   [] e.op = "load_tree" /\ e.r = "ok" -> Append(snaps, e.root)
                   [] OTHER -> snaps
     /\ lost' = CASE e.op = "lose" -> lost \cup ToSet(e.ids)
                  [] e.op = "heal" -> {}
                  [] OTHER -> lost \ ToSet(e.puts)
     /\ fl' = fl \cup (IF (e.op \in Muts /\ e.r # "ok") \/ (e.op = "txn_end" /\ ~e.commit) THEN {"failed"} ELSE {})
                 \cup (IF e.op \in {"retain", "repair"} /\ e.r = "ok" THEN {"rr"} ELSE {})
                 \cup (IF e.op = "retain" /\ e.r = "ok" THEN {"ret"} ELSE {})
                 \cup (IF e.op = "repair" /\ e.r = "ok" THEN {"rep"} ELSE {})
                 \cup (IF e.op = "reload" /\ e.r = "ok" THEN {"rel"} ELSE {})
                 \cup (IF e.op = "load_fixture" /\ e.r = "ok" THEN {"fix"} \cup (IF e.rr THEN {"rr"} ELSE {}) ELSE {})
                 \cup (IF e.op = "threads" THEN {"thr"} ELSE {})
                 \cup (IF e.op = "other" THEN {"oth"} ELSE {})
     /\ oth' = IF e.op = "other" THEN [oth EXCEPT ![e.s] = TLCEval(OthAfter(e))] ELSE oth
     /\ used' = IF PROP \notin {"C07", "ALL"} THEN <<>>
                \* a reload goes on after the root: positions behind it are not known any more
                ELSE IF e.op = "reload" /\ e.r = "ok"
                  THEN LET end == Bl[e.root.link].off + Bl[e.root.link].len IN
                       SelectSeq(used, LAMBDA u : u[1] < end)
                ELSE used \o NewRanges(e, NbBefore)

Spec == Init /\ [][Next]_vars

\* a broken obligation is reported, and the exploration goes on with the other episodes
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
