-------------------------------- MODULE KeyMC ---------------------------------
(***************************************************************************)
(* Streams with the tag keys of banyan-utils: the tree algorithms of       *)
(* BanyanOps with events [l, t, tags] as keys, and the stored form of key  *)
(* sequences (columns of numbers, a sorted table of tags, and a set of     *)
(* indices into it for each key). Summary, Sat and May of BanyanOps are    *)
(* replaced by KSummary, KSat and KMay, and Gone by KGone (configuration).  *)
(***************************************************************************)
EXTENDS BanyanOps, TagOps, Json
CONSTANTS LC, KB, SB, MAXN, MAXK, MAXOPS, ONEKEY, GENPRINT
VARIABLES root, con, n, hist
vars == <<root, con, n, hist>>
View == <<root, con, n, Len(hist)>>
C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> INF]

Events == {[l |-> 5, lo |-> 1, hi |-> 1, tags |-> {1, 2}], [l |-> 0, lo |-> 7, hi |-> 7, tags |-> {}], [l |-> 7, lo |-> 3, hi |-> 3, tags |-> {2}]}
Terms == {[form |-> "tags", lo |-> 0, hi |-> 0, tags |-> {1}], [form |-> "tags", lo |-> 0, hi |-> 0, tags |-> {2}],
          [form |-> "range", lo |-> 3, hi |-> 9, tags |-> {2}], [form |-> "range", lo |-> 2, hi |-> 2, tags |-> {}]}
Queries == {[q |-> "tags", ts |-> <<k>>] : k \in Terms}
           \cup {[q |-> "tags", ts |-> <<>>], [q |-> "from", lo |-> 1], [q |-> "from", lo |-> 3]}

(***************************************************************************)
(* The stored form of a sequence of keys                                   *)
(***************************************************************************)
At(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
FromKeys(ks) ==
  LET tab == SetToSortSeq(UNION {ks[i].tags : i \in DOMAIN ks}, <) IN
  [l |-> [i \in DOMAIN ks |-> ks[i].l], lo |-> [i \in DOMAIN ks |-> ks[i].lo], hi |-> [i \in DOMAIN ks |-> ks[i].hi],
   tab |-> tab, els |-> [i \in DOMAIN ks |-> {At(tab, x) : x \in ks[i].tags}]]
Get(s, i) == [l |-> s.l[i], lo |-> s.lo[i], hi |-> s.hi[i], tags |-> {s.tab[x] : x \in s.els[i]}]
Summarize(s) == [l |-> Min(ToSet(s.l)), lo |-> Min(ToSet(s.lo)), hi |-> Max(ToSet(s.hi)), tags |-> ToSet(s.tab)]

KGone == <<[l |-> -1, lo |-> -1, hi |-> -1, tags |-> {}], -1>>
KeysOf(nd) == IF nd.t = "L" THEN nd.keys ELSE nd.sums
Stored(nd) == FromKeys(KeysOf(nd))
KSummary(nd) == Summarize(Stored(nd))

(***************************************************************************)
(* Queries, evaluated on the stored form: terms with a tag that is not in  *)
(* the table can not match, the others are compared by their indices       *)
(***************************************************************************)
TermIn(k, s, i) == /\ k.tags \subseteq ToSet(s.tab)
                   /\ {At(s.tab, x) : x \in k.tags} \subseteq s.els[i]
                   /\ k.form = "tags" \/ ~(s.hi[i] < k.lo \/ s.lo[i] > k.hi)
KSat(q, o, k) == CASE q.q = "from" -> o >= q.lo
                   [] q.q = "tags" -> \E j \in DOMAIN q.ts : TermIn(q.ts[j], FromKeys(<<k>>), 1)
KMay(q, at, nd, i) == CASE q.q = "from" -> at + nd.n > q.lo
                        [] q.q = "tags" -> \E j \in DOMAIN q.ts : TermIn(q.ts[j], Stored(nd), i)

(***************************************************************************)
Init == root = Nil /\ con = <<>> /\ n = 0 /\ hist = <<>>
Next == /\ Len(hist) < MAXOPS
        /\ \/ \E k \in 1..MAXK : \E evs \in [1..k -> Events] : \E op \in {"extend", "extend_unpacked"} :
                LET els == [i \in 1..k |-> <<evs[i], n + i, 1>>]
                    r == IF op = "extend" THEN Extend(C, root, St(100 * Len(hist) + 1, els, -1)) ELSE ExtendUnpacked(C, root, St(100 * Len(hist) + 1, els, -1))
                IN /\ n + k <= MAXN /\ r.ok
                   /\ root' = r.node /\ n' = n + k
                   /\ con' = con \o [i \in 1..k |-> [e |-> evs[i], v |-> n + i, gone |-> FALSE]]
                   /\ hist' = Append(hist, [op |-> op, els |-> [i \in 1..k |-> [l |-> evs[i].l, t |-> evs[i].lo, tags |-> SetToSeq(evs[i].tags)]]])
           \/ /\ root.t # "N" /\ ~IsPacked(root)
              /\ LET r == Pack(C, root, St(100 * Len(hist) + 1, <<>>, -1), [v \in 1..MAXN |-> 1]) IN
                 r.ok /\ root' = r.node
              /\ hist' = Append(hist, [op |-> "pack"]) /\ UNCHANGED <<con, n>>
           \/ \E q \in Queries :
              /\ root.t # "N"
              /\ LET r == Retain(q, root, St(100 * Len(hist) + 1, <<>>, -1)).node
                     f == Flat(r)
                 IN /\ root' = r /\ r # root
                    /\ con' = [i \in DOMAIN con |-> [con[i] EXCEPT !.gone = f[i] = Gone]]
              /\ hist' = Append(hist, IF q.q = "from" THEN [op |-> "forget", from |-> q.lo]
                                      ELSE [op |-> "retain", q |-> [j \in DOMAIN q.ts |-> [q.ts[j] EXCEPT !.tags = SetToSeq(@)]]])
              /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
GenAll == (GENPRINT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)

-----------------------------------------------------------------------------
Whole == root.t # "N"
Part(o, k) == {con[i].e : i \in (o + 1)..(o + k)}
Exact(es) == [l |-> Min({e.l : e \in es}), lo |-> Min({e.lo : e \in es}), hi |-> Max({e.hi : e \in es}), tags |-> UNION {e.tags : e \in es}]

\* every key and every summary is exact, also where something is forgotten; queries on summaries skip nothing that matches
C28 == Whole =>
  /\ root.n = Len(con)
  /\ \A x \in ToSet(NodeSeq(root)) :
       LET nd == x.nd
           s == Stored(nd)
       IN /\ \A i \in DOMAIN s.els : s.els[i] \subseteq DOMAIN s.tab
          /\ UNION {s.els[i] : i \in DOMAIN s.els} = DOMAIN s.tab
          /\ \A i \in DOMAIN KeysOf(nd) : Get(s, i) = KeysOf(nd)[i]
          /\ Summarize(s) = Exact(Part(x.o, nd.n))
          /\ nd.t = "L" => \A i \in 1..nd.n : Get(s, i) = con[x.o + i].e
          /\ nd.t = "B" /\ nd.id # 0 =>
               \A i \in DOMAIN nd.ch :
                 LET o == ChildOff(nd, x.o, i) IN
                 /\ Get(s, i) = Exact(Part(o, nd.ch[i].n))
                 /\ \A k \in Terms : (\E e \in Part(o, nd.ch[i].n) : TermHolds(k, [t |-> e.lo, tags |-> e.tags])) => TermIn(k, s, i)
  /\ \A i \in DOMAIN con : LET f == Flat(root)[i] IN f = IF con[i].gone THEN Gone ELSE <<con[i].e, con[i].v>>

\* ------------------------------------------------------------ dumps
Block(nd) == [key |-> IF ONEKEY \/ nd.t = "B" THEN "i" ELSE "v",
              items |-> IF nd.t = "L" THEN [i \in DOMAIN nd.vals |-> [v |-> nd.vals[i]]]
                        ELSE [i \in DOMAIN nd.ch |-> [n |-> nd.ch[i].n, lv |-> nd.ch[i].lv, s |-> nd.ch[i].s, keys |-> Stored(nd.ch[i])]]]
Dump(b, k) == IF k = b.key THEN [head |-> TRUE, items |-> b.items] ELSE [head |-> FALSE, items |-> <<>>]
Shown(k) == LET ns == SelectSeq(NodeSeq(root), LAMBDA x : x.nd.id # 0 /\ x.nd.t = "L") IN
            FlattenSeq([j \in DOMAIN ns |-> Dump(Block(ns[j].nd), k).items])
\* the dumps of all leaves are the values, those of a branch its children; nothing without the key
C29 == Whole =>
  LET there == SelectSeq(con, LAMBDA x : ~x.gone) IN
  /\ Shown(IF ONEKEY THEN "i" ELSE "v") = [j \in DOMAIN there |-> [v |-> there[j].v]]
  /\ Shown("x") = <<>> /\ (ONEKEY \/ Shown("i") = <<>>)
  /\ \A nd \in Nodes(root) : nd.id # 0 =>
       /\ \A k \in {"i", "v", "x"} : Dump(Block(nd), k).head <=> k = Block(nd).key
       /\ nd.t = "B" => nd.n = SumSeq([i \in DOMAIN nd.ch |-> Dump(Block(nd), "i").items[i].n])
=============================================================================
