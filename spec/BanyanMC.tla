------------------------------ MODULE BanyanMC -------------------------------
(***************************************************************************)
(* All histories of a stream builder over the algorithms of BanyanOps,     *)
(* within small bounds. The invariants are the listed properties, for the  *)
(* state reached and for all queries, losses and next steps from there.    *)
(***************************************************************************)
EXTENDS BanyanOps, Json

CONSTANTS LC, KB, SB, MUS,   \* limits
          MAXN,              \* number of elements
          MAXOPS,            \* length of a history
          MAXV,              \* number of values ever offered
          BATCHES,           \* sizes of batches
          SZM,               \* sizes of values: 1 + (v % SZM)
          FEATURES,          \* enabled groups of actions
          GENPRINT           \* print histories

C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> MUS]

VARIABLES root,    \* tree of the builder
          off,     \* keystream position of the builder (positions count blocks here)
          hw,      \* first position never used
          con,     \* shadow: what the stream should contain
          saved,   \* shadow contents of open transactions
          sroots,  \* roots to restore
          snap,    \* last snapshot: its tree and what it should contain
          lost,    \* unreadable blocks
          vn,      \* number of values offered so far
          mode,    \* "rw", or "ro" when the unfinished part has been forgotten
          hist     \* history (not part of the view)

vars == <<root, off, hw, con, saved, sroots, snap, lost, vn, mode, hist>>
View == <<root, off, hw, con, saved, sroots, snap, lost, vn, mode, Len(hist)>>

SizeOf(v) == 1 + (v % SZM)
KeyOf(v) == (v * 5) % 7
Els(k) == [i \in 1..k |-> <<KeyOf(vn + i), vn + i, SizeOf(vn + i)>>]
Pairs(els) == [i \in DOMAIN els |-> <<els[i][1], els[i][2]>>]
Sizes == [v \in 1..MAXV |-> SizeOf(v)]

QKeys(a, b) == [q |-> "keys", rs |-> <<<<a, b>>>>]
QRange(a, b) == [q |-> "range", form |-> "ex", lo |-> a, hi |-> b]
Queries == {[q |-> "all"], [q |-> "empty"], QKeys(0, 0), QKeys(2, 4), QRange(2, 5),
            [q |-> "and", a |-> QKeys(0, 3), b |-> QRange(1, 6)],
            [q |-> "or", a |-> QRange(0, 2), b |-> QKeys(6, 6)]}
RetainQueries == {[q |-> "range", form |-> "from", lo |-> 2, hi |-> 2], QKeys(0, 2), [q |-> "empty"]}

Init ==
  /\ root = Nil /\ off = 1 /\ hw = 1 /\ con = <<>> /\ saved = <<>> /\ sroots = <<>>
  /\ snap = [root |-> Nil, con |-> <<>>] /\ lost = {} /\ vn = 0 /\ mode = "rw" /\ hist = <<>>

Ready == mode = "rw" /\ lost = {} /\ Len(hist) < MAXOPS
Log(h) == hist' = Append(hist, h)

\* the builder ends up with the result of an operation, or as it was
Done(r, con1) ==
  /\ off' = r.nx /\ hw' = Max({hw, r.nx})
  /\ root' = IF r.ok THEN r.node ELSE root
  /\ con' = IF r.ok THEN con1 ELSE con

\* puts: number of block writes that succeed (-1: all)
Grow(op, k, puts) ==
  LET els == Els(k)
      st == [St(off, els, puts) EXCEPT !.puts = puts]
      r == IF op = "extend" THEN Extend(C, root, st) ELSE ExtendUnpacked(C, root, st)
  IN /\ Ready /\ Len(con) + k <= MAXN /\ vn + k <= MAXV
     /\ puts >= 0 => ~r.ok
     /\ Done(r, con \o Pairs(els))
     /\ vn' = vn + k
     /\ Log([op |-> op, k |-> k, puts |-> puts])
     /\ UNCHANGED <<saved, sroots, snap, lost, mode>>

DoPack(puts) ==
  LET r == Pack(C, root, [St(off, <<>>, puts) EXCEPT !.puts = puts], Sizes) IN
  /\ Ready /\ root.t # "N"
  /\ puts >= 0 => ~r.ok
  /\ Done(r, con)
  /\ Log([op |-> "pack", puts |-> puts])
  /\ UNCHANGED <<saved, sroots, snap, lost, vn, mode>>

Forget(q, r) == [i \in DOMAIN con |-> Flat(r)[i]]

DoRetain(q, puts) ==
  LET r == Retain(q, root, [St(off, <<>>, puts) EXCEPT !.puts = puts]) IN
  /\ "retain" \in FEATURES /\ Ready /\ root.t # "N"
  /\ puts >= 0 => ~r.ok
  /\ Done(r, Flat(r.node))
  /\ Log([op |-> "retain", q |-> q, puts |-> puts])
  /\ UNCHANGED <<saved, sroots, snap, lost, vn, mode>>

Lose(n) ==
  /\ "lose" \in FEATURES /\ Ready /\ root.t # "N"
  /\ LET ids == SetToSortSeq(BlockIds(root), <) IN
     n \in DOMAIN ids /\ lost' = {ids[n]}
  /\ Log([op |-> "lose", n |-> n])
  /\ UNCHANGED <<root, off, hw, con, saved, sroots, snap, vn, mode>>

DoRepair ==
  LET r == Repair(lost, root, St(off, <<>>, -1)) IN
  /\ lost # {} /\ Len(hist) < MAXOPS
  /\ off' = r.st.nx /\ hw' = Max({hw, r.st.nx})
  /\ root' = r.st.node /\ con' = FlatWithout(lost, root)
  \* the unfinished part may have been forgotten: only reads from now on
  /\ mode' = IF \E x \in Nodes(r.st.node) : ~x.s /\ x.id = 0 THEN "ro" ELSE "rw"
  /\ lost' = {}
  /\ Log([op |-> "repair"])
  /\ UNCHANGED <<saved, sroots, snap, vn>>

Begin ==
  /\ "txn" \in FEATURES /\ Ready /\ saved = <<>>
  /\ saved' = Append(saved, con) /\ sroots' = Append(sroots, root)
  /\ Log([op |-> "begin"])
  /\ UNCHANGED <<root, off, hw, con, snap, lost, vn, mode>>

End(commit) ==
  /\ Ready /\ saved # <<>>
  /\ root' = IF commit THEN root ELSE Last(sroots)
  /\ con' = IF commit THEN con ELSE Last(saved)
  /\ saved' = Front(saved) /\ sroots' = Front(sroots)
  /\ Log([op |-> "end", commit |-> commit])
  /\ UNCHANGED <<off, hw, snap, lost, vn, mode>>

Snapshot ==
  /\ "snap" \in FEATURES /\ Ready /\ snap.root # root
  /\ snap' = [root |-> root, con |-> con]
  /\ Log([op |-> "snap"])
  /\ UNCHANGED <<root, off, hw, con, saved, sroots, lost, vn, mode>>

FromLink(r) == MkBranch(C, r.id, r.ch)

Reload ==
  /\ "reload" \in FEATURES /\ Ready /\ root.t # "N" /\ root.id # 0
  /\ hw = root.id + 1          \* nothing was written after the root
  /\ root' = FromLink(root) /\ off' = root.id + 1
  /\ Log([op |-> "reload"])
  /\ UNCHANGED <<hw, con, saved, sroots, snap, lost, vn, mode>>

Faults == IF "fault" \in FEATURES THEN {-1, 0, 1, 2} ELSE {-1}

Next ==
  \/ \E k \in BATCHES, p \in Faults : Grow("extend", k, p) \/ Grow("extend_unpacked", k, p)
  \/ \E p \in Faults : DoPack(p)
  \/ \E q \in RetainQueries, p \in Faults : DoRetain(q, p)
  \/ \E n \in 1..9 : Lose(n)
  \/ DoRepair \/ Begin \/ Snapshot \/ Reload
  \/ \E commit \in BOOLEAN : End(commit)

Spec == Init /\ [][Next]_vars

Abs == INSTANCE StreamAbs WITH con <- con, saved <- saved
Refines == Abs!AbsSpec

GenAll == (GENPRINT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)

-----------------------------------------------------------------------------
Empty == root.t = "N"
Chk(q) == Chunks(q, root, 0)

C01 == Flat(root) = con /\ root.n = Len(con)

C02 == mode = "rw" /\ ~Empty =>
  LET p == Pack(C, root, St(off, <<>>, -1), Sizes)
      gone == \E i \in DOMAIN con : con[i] = Gone
  IN /\ ~gone => p.ok
     /\ p.ok => /\ Flat(p.node) = con /\ IsPacked(p.node)
                /\ IsPacked(root) => p.node = root /\ p.nx = off
                /\ ToSet(Roots(root)) \subseteq Nodes(p.node)

C03 == \A q \in Queries : FlattenSeq([i \in DOMAIN Chk(q) |-> Chk(q)[i].d]) = Filter(q, con)

C04 == \A q \in Queries : LET k == Chk(q) IN
  /\ Empty \/ (k[1].lo = 0 /\ k[Len(k)].hi = Len(con))
  /\ \A i \in DOMAIN k : k[i].lo < k[i].hi /\ (i > 1 => k[i - 1].hi = k[i].lo)
  /\ \A i \in DOMAIN k : k[i].d = SelectSeq(Filter(q, con), LAMBDA e : k[i].lo <= e[1] /\ e[1] < k[i].hi)
  /\ \A i \in DOMAIN k : \E x \in ToSet(NodeSeq(root)) : x.o = k[i].lo /\ x.nd.n = k[i].hi - k[i].lo

\* blocks are never overwritten: whatever shares an id is the same
SameId(A, B) == \A x \in A, y \in B : x.id = y.id /\ x.id # 0 => x = y
C05 == /\ Flat(snap.root) = snap.con
       /\ SameId(Nodes(root), Nodes(snap.root)) /\ SameId(Nodes(root), Nodes(root))
       /\ \A i \in DOMAIN sroots : SameId(Nodes(root), Nodes(sroots[i]))

C06 == ~Empty /\ root.id # 0 => root.t = "B" /\ FromLink(root) = root

C07 == off >= hw

C08 == saved # <<>> => Flat(Last(sroots)) = Last(saved)

C09 == ~Empty /\ mode = "rw" => \A q \in Queries :
  LET r == Retain(q, root, St(off, <<>>, -1)).node
      f == Flat(r)
      unfin == {i \in DOMAIN Leaves(root) : ~Leaves(root)[i].s}
  IN /\ Len(f) = Len(con) /\ r.n = root.n
     /\ \A i \in DOMAIN con : f[i] = con[i] \/ (f[i] = Gone /\ ~Sat(q, i - 1, con[i][1]))
     /\ \A x \in Nodes(r) : x.id = 0 => x.s
     /\ \A i \in DOMAIN Leaves(root) :
          LET lf == Leaves(root)[i]
              o == SumSeq([j \in 1..(i-1) |-> Leaves(root)[j].n])
          IN lf.t = "L" /\ lf.s /\ (\A j \in unfin : i < j) /\ (\A j \in 1..lf.n : ~Sat(q, o + j - 1, lf.keys[j]))
             => \A j \in 1..lf.n : f[o + j] = Gone
     /\ Retain(q, r, St(off, <<>>, -1)).node = r
     /\ TreeOK(C, r)

C10 == ~Empty => \A id \in BlockIds(root) :
  LET r == Repair({id}, root, St(off, <<>>, -1)) IN
  /\ Flat(r.st.node) = FlatWithout({id}, root)
  /\ r.rep = TopLost({id}, root)
  /\ id \notin BlockIds(r.st.node)
  /\ Repair({}, root, St(off, <<>>, -1)).st.node = root

C11 == TreeOK(C, root)

\* a block that can not be read: everything before it, then one error if it was needed, else nothing is amiss
C13 == ~Empty => \A id \in BlockIds(root) : \A q \in Queries : \A rev \in BOOLEAN :
  LET r == ChunksE({id}, rev, q, root, 0, -1)
      all == IF rev THEN Reverse(Chk(q)) ELSE Chk(q)
  IN /\ IsPrefix(r.out, all)
     /\ r.err <=> id \in MayLoad(q, root, 0)
     /\ ~r.err => r.out = all

C14 == Reach(root) = BlockIds(root)

C15 == ~Empty /\ root.id # 0 =>
  /\ Seen({"v"}, root) = [k |-> <<>>, v |-> <<>>]
  /\ Seen({}, root) = [k |-> <<>>, v |-> <<>>]
  /\ LET s == Seen({"i"}, root) IN s.v = <<>> /\ s.k = SelectSeq(FlatKeys(root), LAMBDA k : k >= 0)

C17 == \A q \in Queries : \A rev \in BOOLEAN : ~Empty =>
  LET x == IndexNodes(q, root, 0, rev) IN
  /\ x[1] = root
  /\ q.q = "all" => SumSeq([i \in DOMAIN x |-> IF x[i].t = "L" \/ x[i].id = 0 THEN x[i].n ELSE 0]) = Len(con)
  /\ q.q = "all" => Len(x) = Len(NodeSeq(root))

C18 == \A x \in Nodes(root) :
  x.t = "L" /\ x.id # 0 =>
    /\ Len(x.vals) <= LC /\ x.w <= MUS
    /\ Len(x.vals) = LC \/ x.w = MUS => x.s

C21 == LET rs == Roots(root) IN
  /\ \A i \in DOMAIN rs : rs[i].s /\ (i > 1 => rs[i].lv <= rs[i - 1].lv)
  /\ IsPrefix(FlattenSeq([i \in DOMAIN rs |-> Flat(rs[i])]), con)
  /\ IsPacked(root) /\ ~Empty => \A x \in ToSet(NodeSeq(root)) :
        x.nd.t = "L" /\ x.nd.s => x.o < SumSeq([i \in DOMAIN rs |-> rs[i].n])

C23 == \A q \in Queries :
  \A x \in ToSet(NodeSeq(root)) :
     (x.nd.t = "L" /\ x.nd.id # 0 /\ \E i \in 1..x.nd.n : Sat(q, x.o + i - 1, x.nd.keys[i]))
       => x.nd.id \in MayLoad(q, root, 0)

C24 == ~Empty /\ IsPacked(root) /\ (\A i \in DOMAIN con : con[i] # Gone) =>
  SealedTail(root) =
    SealedTail(Extend(C, Nil, St(1, [i \in DOMAIN con |-> <<con[i][1], con[i][2], SizeOf(con[i][2])>>], -1)).node)

C27 == ~Empty => NodeSeq(root)[1].nd = root
=============================================================================
