------------------------------ MODULE BanyanOps ------------------------------
(***************************************************************************)
(* The algorithms of banyan, as pure operators over trees.                 *)
(*                                                                         *)
(* A node is the index record of a node together with (recursively) what   *)
(* the block it links to contains:                                         *)
(*   t     "L" leaf, "B" branch, "N" no node (empty stream), "X" garbage   *)
(*   id    block id, 0 if the node is purged (forgotten), -1 if unknown    *)
(*   s     sealed flag          lv   level (0 for leaves)                  *)
(*   n     recorded count       keys keys of a leaf (in the index)         *)
(*   sums  summaries of the children of a branch (in the index)            *)
(*   vals  values of a leaf (in the block), <<>> if purged                 *)
(*   w     uncompressed size of the values of a leaf                       *)
(*   ch    children of a branch (in the block), <<>> if purged             *)
(*                                                                         *)
(* c is the configuration [lc, kb, sb, mus]: max leaf count, max key       *)
(* branches, max summary branches, max uncompressed leaf size. Sealing by  *)
(* compressed size is not modelled here.                                   *)
(*                                                                         *)
(* An element is <<key, value, size>>.                                     *)
(*                                                                         *)
(* Operations that write thread a record st through:                       *)
(*   nx    next block id = next unused keystream position                  *)
(*   rest  elements that still have to be stored                           *)
(*   ok    FALSE once something failed                                     *)
(*   puts  number of block writes that will succeed before one fails       *)
(*   node  result                                                          *)
(* Each operator is named after the function of the code it models.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Nil == [t |-> "N", id |-> 0, s |-> FALSE, lv |-> -1, n |-> 0, keys |-> <<>>,
        sums |-> <<>>, vals |-> <<>>, w |-> 0, ch |-> <<>>]

Gone == <<-1, -1>>      \* what a reader sees of a forgotten element
Bad  == <<-9, -9>>      \* what no reader must ever see

MkLeaf(id, s, keys, vals, w) ==
  [t |-> "L", id |-> id, s |-> s, lv |-> 0, n |-> Len(keys), keys |-> keys,
   sums |-> <<>>, vals |-> vals, w |-> w, ch |-> <<>>]

Purged(nd) == nd.id = 0

SumSeq(s) == FoldSeq(LAMBDA a, b: a + b, 0, s)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(***************************************************************************)
(* Summaries (of the key type used by the harness: smallest and largest)   *)
(***************************************************************************)
Summary(nd) ==
  IF nd.t = "L"
    THEN <<Min(ToSet(nd.keys)), Max(ToSet(nd.keys))>>
    ELSE <<Min({nd.sums[i][1] : i \in DOMAIN nd.sums}),
           Max({nd.sums[i][2] : i \in DOMAIN nd.sums})>>

(***************************************************************************)
(* Content                                                                 *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(nd) ==
  CASE nd.t = "N" -> <<>>
    [] nd.t = "X" -> [i \in 1..nd.n |-> Bad]
    [] nd.t # "X" /\ nd.t # "N" /\ Purged(nd) -> [i \in 1..nd.n |-> Gone]
    [] nd.t = "L" /\ ~Purged(nd) ->
         [i \in 1..Len(nd.keys) |->
            IF i <= Len(nd.vals) THEN <<nd.keys[i], nd.vals[i]>> ELSE Bad]
    [] nd.t = "B" /\ ~Purged(nd) -> FlattenSeq(MapSeq(Flat, nd.ch))

\* keys of all elements, as far as the index knows them (-1 for those below a purged branch)
RECURSIVE FlatKeys(_)
FlatKeys(nd) ==
  CASE nd.t = "N" -> <<>>
    [] nd.t = "L" -> nd.keys
    [] nd.t = "B" /\ ~Purged(nd) -> FlattenSeq(MapSeq(FlatKeys, nd.ch))
    [] OTHER -> [i \in 1..nd.n |-> -1]

\* all nodes, depth first, with the offset of their first element
RECURSIVE NodesAt(_, _)
NodesAt(nd, off) ==
  IF nd.t = "N" THEN <<>>
  ELSE <<[o |-> off, nd |-> nd]>> \o
       FlattenSeq([i \in 1..Len(nd.ch) |->
          NodesAt(nd.ch[i], off + SumSeq([j \in 1..(i-1) |-> nd.ch[j].n]))])
NodeSeq(nd) == NodesAt(nd, 0)
Nodes(nd) == {x.nd : x \in ToSet(NodeSeq(nd))}
BlockIds(nd) == {x.id : x \in Nodes(nd)} \ {0}

(***************************************************************************)
(* Structure                                                               *)
(***************************************************************************)
MaxBranch(c, lv) == IF lv = 1 THEN c.kb ELSE c.sb

BranchSealed(c, ch, lv) ==
  /\ \A i \in DOMAIN ch : ch[i].s /\ ch[i].lv = lv - 1
  /\ Len(ch) >= MaxBranch(c, lv)

MkBranch(c, id, ch) ==
  LET lv == Max({ch[i].lv : i \in DOMAIN ch}) + 1 IN
  [t |-> "B", id |-> id, s |-> BranchSealed(c, ch, lv), lv |-> lv,
   n |-> SumSeq([i \in DOMAIN ch |-> ch[i].n]), keys |-> <<>>,
   sums |-> TLCEval([i \in DOMAIN ch |-> Summary(ch[i])]), vals |-> <<>>, w |-> 0, ch |-> ch]

\* definition of packed to the left
RECURSIVE IsPacked(_)
IsPacked(nd) ==
  IF nd.t # "B" \/ Purged(nd) \/ nd.s THEN TRUE
  ELSE /\ \A i \in 1..(Len(nd.ch) - 1) : nd.ch[i].s /\ nd.ch[i].lv = nd.lv - 1
       /\ Last(nd.ch).lv < nd.lv
       /\ IsPacked(Last(nd.ch))

\* metadata of one node agrees with its content
NodeOK(c, nd) ==
  CASE nd.t = "X" -> FALSE
    [] nd.t = "L" -> /\ nd.n = Len(nd.keys) /\ nd.n > 0
                     /\ Purged(nd) \/ Len(nd.vals) = Len(nd.keys)
    [] nd.t = "B" ->
         /\ nd.n > 0 /\ nd.lv > 0 /\ Len(nd.sums) > 0
         /\ Purged(nd) \/
            (/\ Len(nd.ch) = Len(nd.sums)
             /\ nd.n = SumSeq([i \in DOMAIN nd.ch |-> nd.ch[i].n])
             /\ nd.lv = Max({nd.ch[i].lv : i \in DOMAIN nd.ch}) + 1
             /\ \A i \in DOMAIN nd.ch : nd.sums[i] = Summary(nd.ch[i])
             /\ nd.s = BranchSealed(c, nd.ch, nd.lv))
    [] OTHER -> TRUE
TreeOK(c, nd) == \A x \in Nodes(nd) : NodeOK(c, x)

(***************************************************************************)
(* Writing                                                                 *)
(***************************************************************************)
St(nx, rest, puts) == [nx |-> nx, rest |-> rest, ok |-> TRUE, puts |-> puts, node |-> Nil]
Fail(st) == [st EXCEPT !.ok = FALSE]

\* write a block: the keystream position is used up even if the write fails
Put(st, mk(_)) ==
  IF st.puts = 0 THEN [st EXCEPT !.ok = FALSE, !.nx = @ + 1]
  ELSE [st EXCEPT !.node = mk(st.nx), !.nx = @ + 1, !.puts = @ - 1]

\* how many elements of rest fit into a leaf with cnt elements of total size w
RECURSIVE Fill(_, _, _, _, _)
Fill(c, cnt, w, rest, i) ==
  IF i = Len(rest) \/ cnt + i >= c.lc
    THEN [i |-> i, w |-> w, full |-> FALSE, err |-> FALSE]
  ELSE LET e == rest[i + 1] IN
    IF e[3] > c.mus THEN [i |-> i, w |-> w, full |-> FALSE, err |-> TRUE]
    ELSE IF w + e[3] > c.mus THEN [i |-> i, w |-> w, full |-> TRUE, err |-> FALSE]
    ELSE Fill(c, cnt, w + e[3], rest, i + 1)

ExtendLeaf(c, old, st) ==
  LET f == Fill(c, Len(old.keys), old.w, st.rest, 0)
      new == SubSeq(st.rest, 1, f.i)
      keys == TLCEval(old.keys \o [i \in 1..f.i |-> new[i][1]])
      vals == TLCEval(old.vals \o [i \in 1..f.i |-> new[i][2]])
      sealed == f.full \/ Len(keys) >= c.lc \/ f.w >= c.mus
  IN IF f.err THEN Fail(st)
     ELSE Put([st EXCEPT !.rest = SubSeq(@, f.i + 1, Len(@))],
              LAMBDA id : MkLeaf(id, sealed, keys, vals, f.w))

NewBranch(c, ch, st) == Put(st, LAMBDA id : MkBranch(c, id, ch))

RECURSIVE ExtendBranch(_, _, _, _), FillNode(_, _, _), ExtendAbove(_, _, _, _),
          Extend0(_, _, _), Raise(_, _, _)
ExtendBranch(c, ch, lv, st) ==
  IF ~st.ok THEN st
  ELSE IF st.rest # <<>> /\ Len(ch) < MaxBranch(c, lv)
    THEN LET r == FillNode(c, lv - 1, st) IN
         IF ~r.ok THEN r ELSE ExtendBranch(c, Append(ch, r.node), lv, r)
  ELSE NewBranch(c, ch, st)

FillNode(c, lv, st) ==
  IF lv = 0 THEN ExtendLeaf(c, Nil, st) ELSE ExtendBranch(c, <<>>, lv, st)

Raise(c, lv, st) ==
  IF st.ok /\ (st.rest # <<>> \/ st.node.lv = 0) /\ st.node.lv < lv
    THEN Raise(c, lv, ExtendBranch(c, <<st.node>>, st.node.lv + 1, st))
    ELSE st

ExtendAbove(c, nd, lv, st) ==
  Raise(c, lv, IF nd.t = "N" THEN ExtendLeaf(c, Nil, st) ELSE Extend0(c, nd, st))

Extend0(c, nd, st) ==
  IF nd.s \/ st.rest = <<>> \/ Purged(nd) THEN [st EXCEPT !.node = nd]
  ELSE IF nd.t = "L" THEN ExtendLeaf(c, nd, st)
  ELSE LET r == ExtendAbove(c, Last(nd.ch), nd.lv - 1, st) IN
       IF ~r.ok THEN r
       ELSE ExtendBranch(c, Append(Front(nd.ch), r.node), nd.lv, r)

INFLEVEL == 1000000

ExtendUnpacked(c, root, st) ==
  IF st.rest = <<>> THEN [st EXCEPT !.node = root]
  ELSE LET b == ExtendAbove(c, Nil, INFLEVEL, st) IN
       IF ~b.ok \/ root.t = "N" THEN b
       ELSE NewBranch(c, <<root, b.node>>, b)

Extend(c, root, st) ==
  IF st.rest = <<>> THEN [st EXCEPT !.node = root]
  ELSE IF root.t # "N" /\ ~IsPacked(root) THEN ExtendUnpacked(c, root, st)
  ELSE ExtendAbove(c, root, INFLEVEL, st)

\* sealed roots; lev is the highest level that may still be taken
RECURSIVE Roots0(_, _, _), RootsOver(_, _, _)
Roots0(nd, lev, acc) ==
  IF nd.s /\ nd.lv <= lev THEN [lev |-> nd.lv, acc |-> Append(acc, nd)]
  ELSE IF Purged(nd) THEN [lev |-> -1, acc |-> acc]
  ELSE RootsOver(nd.ch, Min({lev, nd.lv - 1}), acc)
RootsOver(ch, lev, acc) ==
  IF ch = <<>> THEN [lev |-> lev, acc |-> acc]
  ELSE LET r == Roots0(Head(ch), lev, acc) IN RootsOver(Tail(ch), r.lev, r.acc)
Roots(nd) == IF nd.t = "N" THEN <<>> ELSE Roots0(nd, INFLEVEL, <<>>).acc

RECURSIVE SimplifyRoots(_, _, _, _)
SimplifyRoots(c, roots, from, st) ==
  LET ch == SubSeq(roots, from, Len(roots))
      first == ch[1].lv
      maxc == MaxBranch(c, first + 1)
      lower == {i \in DOMAIN ch : ch[i].lv < first}
      pos == IF lower = {} THEN Len(ch) ELSE Min(lower) - 1
      join(k) == LET r == NewBranch(c, SubSeq(ch, 1, k), st) IN
                 [roots |-> SubSeq(roots, 1, from - 1) \o <<r.node>> \o
                            SubSeq(roots, from + k, Len(roots)),
                  st |-> r]
  IN IF pos >= maxc THEN join(maxc)
     ELSE IF pos >= Len(ch) - 1 THEN join(Min({maxc, Len(ch)}))
     ELSE SimplifyRoots(c, roots, from + pos, st)

RECURSIVE TreeFromRoots(_, _, _)
TreeFromRoots(c, roots, st) ==
  IF ~st.ok THEN st
  ELSE IF Len(roots) = 0 THEN [st EXCEPT !.node = Nil]
  ELSE IF Len(roots) = 1 THEN [st EXCEPT !.node = roots[1]]
  ELSE LET r == SimplifyRoots(c, roots, 1, st) IN TreeFromRoots(c, r.roots, r.st)

\* size[v] is the size of value v
Pack(c, root, st, size) ==
  IF IsPacked(root) THEN [st EXCEPT !.node = root]
  ELSE LET t == TreeFromRoots(c, Roots(root), st) IN
       IF ~t.ok THEN t
       ELSE LET all == Flat(root)
                rem == SubSeq(all, t.node.n + 1, Len(all))
            IN IF \E i \in DOMAIN rem : rem[i] = Gone THEN Fail(t)
               ELSE Extend(c, t.node,
                      [t EXCEPT !.rest = [i \in DOMAIN rem |->
                                 <<rem[i][1], rem[i][2], size[rem[i][2]]>>]])

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
INF == 2000000000

\* [lo, hi) of an offset range query, whatever its form
QLo(q) == IF q.form \in {"to", "toin", "full"} THEN 0
          ELSE IF q.form = "in" /\ q.hi = 0 THEN 1 ELSE q.lo
QHi(q) == IF q.form \in {"from", "full"} THEN INF
          ELSE IF q.form = "in" /\ q.hi = 0 THEN 1 ELSE q.hi

RECURSIVE Sat(_, _, _)
Sat(q, o, k) ==
  CASE q.q = "all"   -> TRUE
    [] q.q = "empty" -> FALSE
    [] q.q = "keys"  -> \E i \in DOMAIN q.rs : q.rs[i][1] <= k /\ k <= q.rs[i][2]
    [] q.q = "range" -> QLo(q) <= o /\ o < QHi(q)
    [] q.q = "and"   -> Sat(q.a, o, k) /\ Sat(q.b, o, k)
    [] q.q = "or"    -> Sat(q.a, o, k) \/ Sat(q.b, o, k)

\* which children of a branch may contain a match, according to the index
RECURSIVE May(_, _, _, _)
May(q, off, nd, i) ==
  CASE q.q = "all"   -> TRUE
    [] q.q = "empty" -> FALSE
    [] q.q = "keys"  -> \E j \in DOMAIN q.rs : q.rs[j][1] <= nd.sums[i][2] /\ nd.sums[i][1] <= q.rs[j][2]
    [] q.q = "range" -> off < QHi(q) /\ QLo(q) < off + nd.n
    [] q.q = "and"   -> May(q.a, off, nd, i) /\ May(q.b, off, nd, i)
    [] q.q = "or"    -> May(q.a, off, nd, i) \/ May(q.b, off, nd, i)
Bits(q, off, nd) == [i \in DOMAIN nd.sums |-> May(q, off, nd, i)]
AnyBit(q, off, nd) == \E i \in DOMAIN nd.sums : May(q, off, nd, i)

\* what a filtered read of content s must return
Filter(q, s) ==
  SelectSeq([i \in 1..Len(s) |-> <<i - 1, s[i][1], s[i][2]>>],
            LAMBDA e : e[3] # -1 /\ Sat(q, e[1], e[2]))

ChildOff(nd, off, i) == off + SumSeq([j \in 1..(i-1) |-> nd.ch[j].n])

\* the forward chunk iterator
Skip(nd, off) == [lo |-> off, hi |-> off + nd.n, d |-> <<>>,
                  x |-> <<nd.lv, IF Purged(nd) THEN 1 ELSE 0, nd.n>>]
RECURSIVE Chunks(_, _, _)
Chunks(q, nd, off) ==
  IF nd.t = "N" THEN <<>>
  ELSE IF Purged(nd) THEN <<Skip(nd, off)>>
  ELSE IF nd.t = "L" THEN
    <<[Skip(nd, off) EXCEPT !.d =
         SelectSeq([i \in 1..nd.n |-> <<off + i - 1, nd.keys[i], nd.vals[i]>>],
                   LAMBDA e : Sat(q, e[1], e[2]))]>>
  ELSE IF ~AnyBit(q, off, nd) THEN <<Skip(nd, off)>>
  ELSE FlattenSeq([i \in DOMAIN nd.ch |->
         IF May(q, off, nd, i) THEN Chunks(q, nd.ch[i], ChildOff(nd, off, i))
         ELSE <<Skip(nd.ch[i], ChildOff(nd, off, i))>>])

\* the same with unreadable blocks: those in lost, and the b-th that is loaded (b = -1: none).
\* everything before the first unreadable block is delivered, then the error, then nothing
RECURSIVE ChunksE(_, _, _, _, _, _), ChunksOver(_, _, _, _, _, _, _)
ChunksE(lost, rev, q, nd, off, b) ==
  LET bad == b = 1 \/ nd.id \in lost
      b1 == IF b > 0 THEN b - 1 ELSE b
      plain(bb) == [out |-> Chunks(q, nd, off), err |-> FALSE, b |-> bb]
  IN IF nd.t = "N" \/ Purged(nd) THEN plain(b)
     ELSE IF nd.t = "L" THEN
       IF ~(\E i \in DOMAIN nd.keys : Sat(q, off + i - 1, nd.keys[i])) THEN plain(b)
       ELSE IF bad THEN [out |-> <<>>, err |-> TRUE, b |-> b1] ELSE plain(b1)
     ELSE IF ~AnyBit(q, off, nd) THEN plain(b)
     ELSE IF bad THEN [out |-> <<>>, err |-> TRUE, b |-> b1]
     ELSE ChunksOver(lost, rev, q, nd, off, 1, [out |-> <<>>, err |-> FALSE, b |-> b1])
ChunksOver(lost, rev, q, nd, off, j, acc) ==
  IF j > Len(nd.ch) \/ acc.err THEN acc
  ELSE LET i == IF rev THEN Len(nd.ch) + 1 - j ELSE j
           o == ChildOff(nd, off, i)
           r == IF May(q, off, nd, i) THEN ChunksE(lost, rev, q, nd.ch[i], o, acc.b)
                ELSE [out |-> <<Skip(nd.ch[i], o)>>, err |-> FALSE, b |-> acc.b]
       IN ChunksOver(lost, rev, q, nd, off, j + 1,
                     [out |-> acc.out \o r.out, err |-> r.err, b |-> r.b])

\* the index iterator
RECURSIVE IndexNodes(_, _, _, _)
IndexNodes(q, nd, off, rev) ==
  IF nd.t = "N" THEN <<>>
  ELSE IF nd.t = "L" \/ Purged(nd) THEN <<nd>>
  ELSE <<nd>> \o FlattenSeq(
         LET k == Len(nd.ch) IN
         [j \in 1..k |-> LET i == IF rev THEN k + 1 - j ELSE j IN
            IF May(q, off, nd, i) THEN IndexNodes(q, nd.ch[i], ChildOff(nd, off, i), rev)
            ELSE <<>>])

\* blocks that a filtered read may load, and those it has to load
RECURSIVE MayLoad(_, _, _)
MayLoad(q, nd, off) ==
  IF nd.t = "N" \/ Purged(nd) THEN {}
  ELSE IF nd.t = "L" THEN IF \E i \in DOMAIN nd.keys : Sat(q, off + i - 1, nd.keys[i]) THEN {nd.id} ELSE {}
  ELSE IF ~AnyBit(q, off, nd) THEN {}
  ELSE {nd.id} \cup UNION {IF May(q, off, nd, i) THEN MayLoad(q, nd.ch[i], ChildOff(nd, off, i)) ELSE {} : i \in DOMAIN nd.ch}

\* blocks on the path to offset o
RECURSIVE PathTo(_, _)
PathTo(nd, o) ==
  IF nd.t = "N" \/ Purged(nd) \/ o >= nd.n \/ o < 0 THEN {}
  ELSE {nd.id} \cup UNION {LET co == ChildOff(nd, 0, i) IN
          IF co <= o /\ o < co + nd.ch[i].n THEN PathTo(nd.ch[i], o - co) ELSE {} : i \in DOMAIN nd.ch}

\* the links in the clear, and what can be reached by them
Links(nd) == {nd.ch[i].id : i \in DOMAIN nd.ch} \ {0}
RECURSIVE Reach(_)
Reach(nd) == IF nd.t = "N" \/ Purged(nd) THEN {}
             ELSE {nd.id} \cup UNION {IF nd.ch[i].id \in Links(nd) THEN Reach(nd.ch[i]) ELSE {} : i \in DOMAIN nd.ch}

\* what somebody with some of the keys can see below (and without) the root: keys and values
RECURSIVE Seen(_, _)
Seen(keys, nd) ==
  CASE nd.t = "N" -> [k |-> <<>>, v |-> <<>>]
    [] nd.t = "L" -> [k |-> <<>>, v |-> IF "v" \in keys THEN nd.vals ELSE <<>>]
    [] nd.t = "B" -> IF "i" \notin keys \/ Purged(nd) THEN [k |-> <<>>, v |-> <<>>]
       ELSE LET sub == [i \in DOMAIN nd.ch |-> Seen(keys, nd.ch[i])] IN
            [k |-> FlattenSeq([i \in DOMAIN nd.ch |-> nd.ch[i].keys \o sub[i].k]),
             v |-> FlattenSeq([i \in DOMAIN nd.ch |-> sub[i].v])]

(***************************************************************************)
(* Forgetting                                                              *)
(***************************************************************************)
\* off: offset of nd, lev: highest level that may still be forgotten
RECURSIVE Retain0(_, _, _, _, _), RetainOver(_, _, _, _, _, _)
Retain0(q, nd, off, lev, st) ==
  LET lev1 == IF nd.s /\ nd.lv <= lev THEN nd.lv ELSE Min({lev, nd.lv - 1}) IN
  IF nd.t = "L" THEN
    [lev |-> lev1, st |-> st,
     nd |-> IF nd.s /\ ~Purged(nd) /\ lev1 >= 0 /\
               ~(\E i \in DOMAIN nd.keys : Sat(q, off + i - 1, nd.keys[i]))
            THEN [nd EXCEPT !.id = 0, !.vals = <<>>] ELSE nd]
  ELSE IF Purged(nd) THEN [lev |-> lev1, st |-> st, nd |-> nd]
  ELSE IF nd.s /\ nd.lv <= lev1 /\ ~AnyBit(q, off, nd)
    THEN [lev |-> lev1, st |-> st, nd |-> [nd EXCEPT !.id = 0, !.ch = <<>>]]
  ELSE LET r == RetainOver(q, nd.ch, off, lev1, st, <<>>) IN
       IF [i \in DOMAIN r.ch |-> r.ch[i].id] = [i \in DOMAIN nd.ch |-> nd.ch[i].id] \/ ~r.st.ok
         THEN [lev |-> r.lev, st |-> r.st, nd |-> nd]
         ELSE LET p == Put(r.st, LAMBDA id : [nd EXCEPT !.id = id, !.ch = r.ch]) IN
              [lev |-> r.lev, st |-> p, nd |-> IF p.ok THEN p.node ELSE nd]
RetainOver(q, ch, off, lev, st, acc) ==
  IF ch = <<>> THEN [lev |-> lev, st |-> st, ch |-> acc]
  ELSE LET r == Retain0(q, Head(ch), off, lev, st) IN
       RetainOver(q, Tail(ch), off + Head(ch).n, r.lev, r.st, Append(acc, r.nd))

Retain(q, root, st) ==
  IF root.t = "N" THEN [st EXCEPT !.node = root]
  ELSE LET r == Retain0(q, root, 0, INFLEVEL, st) IN [r.st EXCEPT !.node = r.nd]

\* lost: ids of the blocks that can not be read
RECURSIVE Repair0(_, _, _), RepairOver(_, _, _, _)
Repair0(lost, nd, st) ==
  IF Purged(nd) THEN [st |-> st, nd |-> nd, rep |-> 0]
  ELSE IF nd.id \in lost
    THEN [st |-> st, nd |-> [nd EXCEPT !.id = 0, !.vals = <<>>, !.ch = <<>>], rep |-> 1]
  ELSE IF nd.t = "L" THEN [st |-> st, nd |-> nd, rep |-> 0]
  ELSE LET r == RepairOver(lost, nd.ch, st, [ch |-> <<>>, rep |-> 0]) IN
       IF [i \in DOMAIN r.ch |-> r.ch[i].id] = [i \in DOMAIN nd.ch |-> nd.ch[i].id] \/ ~r.st.ok
         THEN [st |-> r.st, nd |-> nd, rep |-> r.rep]
         ELSE LET p == Put(r.st, LAMBDA id : [nd EXCEPT !.id = id, !.ch = r.ch]) IN
              [st |-> p, nd |-> IF p.ok THEN p.node ELSE nd, rep |-> r.rep]
RepairOver(lost, ch, st, acc) ==
  IF ch = <<>> THEN [st |-> st, ch |-> acc.ch, rep |-> acc.rep]
  ELSE LET r == Repair0(lost, Head(ch), st) IN
       RepairOver(lost, Tail(ch), r.st, [ch |-> Append(acc.ch, r.nd), rep |-> acc.rep + r.rep])

Repair(lost, root, st) ==
  IF root.t = "N" THEN [st |-> [st EXCEPT !.node = root], rep |-> 0]
  ELSE LET r == Repair0(lost, root, st) IN [st |-> [r.st EXCEPT !.node = r.nd], rep |-> r.rep]

\* what is left of the content when the blocks in lost can not be read
RECURSIVE FlatWithout(_, _)
FlatWithout(lost, nd) ==
  IF nd.t = "N" THEN <<>>
  ELSE IF Purged(nd) \/ nd.id \in lost THEN [i \in 1..nd.n |-> Gone]
  ELSE IF nd.t = "B" THEN FlattenSeq([i \in DOMAIN nd.ch |-> FlatWithout(lost, nd.ch[i])])
  ELSE Flat(nd)
\* the topmost lost nodes
RECURSIVE TopLost(_, _)
TopLost(lost, nd) ==
  IF nd.t = "N" \/ Purged(nd) THEN 0
  ELSE IF nd.id \in lost THEN 1
  ELSE SumSeq([i \in DOMAIN nd.ch |-> TopLost(lost, nd.ch[i])])

(***************************************************************************)
(* Shapes: trees without block ids                                         *)
(***************************************************************************)
RECURSIVE Shape(_)
Shape(nd) == <<nd.t, nd.s, nd.lv, nd.n, IF nd.t # "N" /\ Purged(nd) THEN 1 ELSE 0, [i \in DOMAIN nd.ch |-> Shape(nd.ch[i])]>>

\* what is determined by content and limits: sealed roots, and the partition of the rest into leaves
RECURSIVE Leaves(_)
Leaves(nd) == IF nd.t = "N" THEN <<>> ELSE IF nd.t = "L" \/ Purged(nd) THEN <<nd>> ELSE FlattenSeq(MapSeq(Leaves, nd.ch))
SealedTail(nd) ==
  LET rs == Roots(nd)
      ls == Leaves(nd) IN
  [roots |-> [i \in DOMAIN rs |-> <<rs[i].lv, rs[i].n>>],
   leaves |-> [i \in DOMAIN ls |-> <<ls[i].n, ls[i].s>>]]
=============================================================================
