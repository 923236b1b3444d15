------------------------------ MODULE SeqTrace -------------------------------
(***************************************************************************)
(* Compressed and encrypted sequences (the payload of each block) on their *)
(* own. The state is the content of the current sequence; each recorded    *)
(* way of making or filling one, and everything it returns, is checked.    *)
(* An item is [id, sz, links, len]; its encoded form has len bytes, and    *)
(* the links from number Hidden on are not marked as links.                *)
(***************************************************************************)
EXTENDS SeqOps, Json, IOUtils, TLC
CONSTANTS PROP
Hidden == 112
\* no sequence has more bytes than this
MaxBlock == 16777216
Us(e) == IF e.us > MaxBlock THEN MaxBlock ELSE e.us

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, cur, ob
vars == <<ep, i, cur, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Evs == Tr[ep].ev

Base(e) == IF e.op = "make" \/ e.base = "empty" THEN <<>> ELSE cur
Taken(e) == IF e.op = "make" THEN e.vals ELSE SubSeq(e.vals, 1, Len(e.keys) - e.held)
Content(e) == Base(e) \o Taken(e)
Ids(x) == [j \in DOMAIN x |-> x[j].id]

Fill(e) ==
  LET S0 == Bytes(Base(e)) n == Natural(e.vals, S0, e.held, Us(e), e.max) k == Len(e.keys) - e.held IN
  CASE e.r = "panic" -> {"panic"}
    [] e.r = "err" -> F(TooBig(e.vals, n, e.held, Us(e), e.max), "failed for no reason")
    [] OTHER ->
         F(k >= 0 /\ k <= n /\ (k < n => k >= 1 /\ e.obs.clen >= e.cs) /\ (e.cs = 0 => k <= 1)
           /\ (k = n /\ TooBig(e.vals, n, e.held, Us(e), e.max) => k >= 1 /\ e.obs.clen >= e.cs), "number of items taken")
         \cup F(e.keys = [j \in 1..e.held |-> 900000 + j - 1] \o Ids(SubSeq(e.vals, 1, k)), "keys")
         \cup F(e.rest = Ids(SubSeq(e.vals, k + 1, Len(e.vals))), "what is left")
         \cup F(e.full = Full(e.vals, k, S0, e.held, Us(e), e.max, e.obs.clen >= e.cs), "full or not")

Obs(e) ==
  LET c == Content(e) o == e.obs
      links == {l \in UNION {ToSet(c[j].links) : j \in DOMAIN c} : l < Hidden}
  IN F(o.items = c, "items") \cup F(o.ipld = c, "items as ipld") \cup F(o.count = Len(c), "count")
     \cup F(o.get = Ids(c) \o <<-1, -1>>, "get")
     \cup F(\A s \in ToSet(o.sel) : s.out = Ids(Selected(c, s.mask)), "select")
     \cup F(\A x \in ToSet(o.crypt) :
              IF x.r # "ok" THEN ~x.fits
              ELSE x.fits /\ x.pos /\ x.range /\ x.same /\ ~x.other /\ ~x.clear
                   /\ ToSet(x.links) = links /\ Len(x.links) = Cardinality(links), "encrypted form")

Check(e) ==
  (IF e.op = "make" THEN F(e.r = (IF Bytes(e.vals) <= MaxBlock THEN "ok" ELSE "err"), "failed, or too large") ELSE Fill(e))
  \cup (IF e.r = "ok" THEN Obs(e) ELSE {})

Init == ep \in DOMAIN Tr /\ i = 0 /\ cur = <<>> /\ ob = {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     /\ ob' = {<<x, e.op>> : x \in Check(e)}
     /\ cur' = IF e.r = "ok" THEN Content(e) ELSE cur
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
