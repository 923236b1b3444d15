------------------------------ MODULE KeyTrace -------------------------------
(***************************************************************************)
(* Streams with the tag keys of banyan-utils. The state is the history of  *)
(* appended events and whether some were forgotten; each recorded tree     *)
(* (decoded from the stored blocks), each read, each printed graph and     *)
(* each dumped block is checked against it.                                *)
(* A node is [t, sealed, gone, lv, n, keys, vals, ch]: the keys of a leaf  *)
(* are those of its events, those of a branch summarize its children.      *)
(***************************************************************************)
EXTENDS TagOps, Json, IOUtils
CONSTANTS PROP

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, els, forgot, ob
vars == <<ep, i, els, forgot, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Evs == Tr[ep].ev

Evt(e) == [l |-> e.l, t |-> e.t, tags |-> ToSet(e.tags), v |-> e.v]
Exact(k, e) == /\ k.l = e.l /\ k.lo = e.t /\ k.hi = e.t
               /\ ToSet(k.tags) = e.tags /\ Len(k.tags) = Cardinality(e.tags)
\* k summarizes the events es
Sums(k, es) ==
  LET s == ToSet(es) IN
  /\ k.l = Min({e.l : e \in s}) /\ k.lo = Min({e.t : e \in s}) /\ k.hi = Max({e.t : e \in s})
  /\ ToSet(k.tags) = UNION {e.tags : e \in s} /\ Len(k.tags) = Cardinality(ToSet(k.tags))
Part(es, from, n) == SubSeq(es, from + 1, from + n)
MinOf(ks) == Min({ks[j].l : j \in DOMAIN ks})

\* the node is what is to be stored for the events es (from the given offset)
RECURSIVE NodeOK(_, _, _)
NodeOK(nd, es, off) ==
  IF off + nd.n > Len(es) \/ nd.n < 1 THEN {"number of events"}
  ELSE LET mine == Part(es, off, nd.n) IN
    IF nd.t = "L" THEN
      F(Len(nd.keys) = nd.n /\ \A j \in DOMAIN mine : Exact(nd.keys[j], mine[j]), "keys of a leaf")
      \cup (IF nd.gone THEN {} ELSE F(nd.vals = [j \in DOMAIN mine |-> mine[j].v], "values of a leaf"))
    ELSE IF nd.gone THEN
      F(/\ nd.keys # <<>>
        /\ Min({nd.keys[j].l : j \in DOMAIN nd.keys}) = Min({mine[j].l : j \in DOMAIN mine})
        /\ Min({nd.keys[j].lo : j \in DOMAIN nd.keys}) = Min({mine[j].t : j \in DOMAIN mine})
        /\ Max({nd.keys[j].hi : j \in DOMAIN nd.keys}) = Max({mine[j].t : j \in DOMAIN mine})
        /\ UNION {ToSet(nd.keys[j].tags) : j \in DOMAIN nd.keys} = UNION {mine[j].tags : j \in DOMAIN mine},
        "summaries of a forgotten branch")
    ELSE
      LET at == [j \in DOMAIN nd.ch |-> off + FoldLeft(LAMBDA a, c : a + c.n, 0, SubSeq(nd.ch, 1, j - 1))] IN
      F(nd.n = FoldLeft(LAMBDA a, c : a + c.n, 0, nd.ch), "count of a branch")
      \cup UNION {NodeOK(nd.ch[j], es, at[j]) : j \in DOMAIN nd.ch}
      \cup F(Len(nd.keys) = Len(nd.ch)
             /\ \A j \in DOMAIN nd.ch : Sums(nd.keys[j], Part(es, at[j], nd.ch[j].n)), "summaries of a branch")
TreeOK(nd, es) ==
  CASE nd.t = "N" -> F(es = <<>>, "events are missing")
    [] nd.t = "X" -> {"stored form"}
    [] OTHER -> F(nd.n = Len(es), "number of events") \cup NodeOK(nd, es, 0)

RECURSIVE Pre(_)
Pre(nd) == IF nd.t = "N" THEN <<>> ELSE <<nd>> \o FlattenSeq([j \in DOMAIN nd.ch |-> Pre(nd.ch[j])])
RECURSIVE Edges(_, _)
Edges(nd, id) ==
  UNION {LET cid == id + 1 + FoldLeft(LAMBDA a, c : a + Len(Pre(c)), 0, SubSeq(nd.ch, 1, j - 1)) IN
         {<<id, cid>>} \cup Edges(nd.ch[j], cid) : j \in DOMAIN nd.ch}
\* what is still there: offset and event
RECURSIVE There(_, _)
There(nd, off) ==
  IF nd.t = "N" \/ nd.gone THEN <<>>
  ELSE IF nd.t = "L" THEN [j \in 1..nd.n |-> off + j - 1]
  ELSE FlattenSeq([j \in DOMAIN nd.ch |->
         There(nd.ch[j], off + FoldLeft(LAMBDA a, c : a + c.n, 0, SubSeq(nd.ch, 1, j - 1)))])

Grown(e) == IF e.op \in {"extend", "extend_unpacked"} /\ e.r = "ok" THEN els \o [j \in DOMAIN e.els |-> Evt(e.els[j])] ELSE els
\* with very long tags, a block may be too large
Failed(e) == /\ e.r # "ok" /\ ~(e.op = "graph" /\ els = <<>>)
             /\ ~(Tr[ep].big /\ e.r = "err" /\ e.op \in {"extend", "extend_unpacked", "pack"})

K28(e) ==
  LET es == Grown(e) IN
  F(~Failed(e), "failed") \cup TreeOK(e.tree, es)
  \cup (IF e.op # "read" \/ e.r # "ok" THEN {}
        ELSE LET off == There(e.tree, 0) IN
             F(/\ Len(e.out) = Len(off)
               /\ \A j \in DOMAIN off :
                    /\ e.out[j].o = off[j]
                    /\ Exact(e.out[j], es[off[j] + 1])
                    /\ e.out[j].v = es[off[j] + 1].v, "events read back"))
  \cup F(forgot \/ e.op \in {"forget", "retain"} \/ Len(There(e.tree, 0)) = Len(es), "forgotten without being asked")

K27(e) ==
  IF e.op # "graph" THEN {}
  ELSE IF els = <<>> THEN F(e.r = "err", "graph of nothing")
  ELSE IF e.r # "ok" THEN {"failed"}
  ELSE LET p == Pre(e.tree) IN
       F(/\ ~e.odd /\ Len(e.nodes) = Len(p)
         /\ \A j \in DOMAIN p :
              /\ e.nodes[j].id = j - 1
              /\ e.nodes[j].label = IF p[j].t = "L" THEN p[j].n ELSE j - 1
              /\ e.nodes[j].shape = IF p[j].t = "L" THEN "circle" ELSE "box"
              /\ e.nodes[j].grey = p[j].sealed, "printed nodes")
       \cup F(ToSet(e.edges) = Edges(e.tree, 0) /\ Len(e.edges) = Len(p) - 1, "printed edges")

\* the dump of a block shows its items when given its key, and nothing of them otherwise
K29(e) ==
  IF e.op # "dump" THEN {}
  ELSE IF e.r # "ok" THEN {"failed"}
  ELSE UNION {LET b == e.blocks[j] IN
         F(b.want # <<>> /\ b.head = "seq" /\ b.out = b.want, "items as json")
         \cup (IF b.lines THEN F(b.cbor = <<"ZstdDagCborSeq">> \o b.diag, "items as cbor") ELSE {})
         \cup F(b.ohead = "err" \/ (b.ohead = "raw" /\ b.oout = b.raw), "dump with another key") : j \in DOMAIN e.blocks}

Check(e) == CASE PROP = "C27" -> K27(e) [] PROP = "C28" -> K28(e) [] PROP = "C29" -> K29(e)

Init == ep \in DOMAIN Tr /\ i = 0 /\ els = <<>> /\ forgot = FALSE /\ ob = {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     /\ ob' = {<<x, e.op>> : x \in Check(e)}
     /\ els' = Grown(e)
     /\ forgot' = (forgot \/ e.op \in {"forget", "retain"})
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
