----------------------------- MODULE StoreTrace ------------------------------
(***************************************************************************)
(* Checks what block stores and the block cache did.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i,
          there,   \* contents that have to be there, as <<content, size>>
          valid,   \* <<link, content>> ever put or offered
          ob
vars == <<ep, i, there, valid, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Evs == Tr[ep].ev
T == Tr[ep]
Total == FoldSet(LAMBDA p, a : a + p[2], 0, there)
Has(d) == \E p \in there : p[1] = d
IsCache == T.kind = "cache"

Check(e) ==
  F(e.r # "panic", "panic")
  \cup (CASE e.op = "put" ->
          F(e.same, "link")
          \cup (IF T.kind # "mem" THEN F(e.r = "ok", "put failed")
                ELSE F(Has(e.d) \/ Total + e.n <= T.limit => Has(e.d) \/ e.r = "ok", "put failed although there is space")
                     \cup F(~Has(e.d) /\ Total + e.n > T.limit => e.r = "err", "put beyond the limit"))
     [] e.op = "putfail" -> IF IsCache THEN F(e.r = "err", "failed write not reported") ELSE {}
     [] e.op = "get" ->
          F(Has(e.d) => e.r = "ok", "block not found")
          \cup F(e.r = "ok" => <<e.d, e.out>> \in valid, "wrong data")
          \cup F(~IsCache /\ e.r = "ok" => Has(e.d) /\ e.out = e.d, "wrong data")
     [] e.op = "all" ->
          LET k == DOMAIN e.all
              got == {j \in k : e.all[j] # 0} IN
          F(\A j \in got : \E v \in valid : v[2] = e.all[j], "wrong data")
          \cup (IF IsCache
                  THEN F(\A j \in got : e.all[j] > 0 => e.sizes[e.all[j]] <= T.maxblk /\ T.cap > 0, "block too large for the cache")
                       \cup F(FoldSet(LAMBDA d, a : a + e.sizes[d], 0, {e.all[j] : j \in {x \in got : e.all[x] > 0}}) <= T.cap, "cache too large")
                  ELSE F(\A j \in got : Has(e.all[j]), "block which was never put"))
     [] e.op = "dump" /\ T.kind = "mem" ->
          F(e.r = "ok" /\ e.busy, "into_inner")
          \cup F(e.r = "ok" => ToSet(e.held) = {p[1] : p \in there} /\ Len(e.held) = Cardinality(there) /\ e.total = Total, "contents")
          \cup F(e.r = "ok" => e.total <= T.limit, "limit")
     [] OTHER -> {})

Init == ep \in DOMAIN Tr /\ i = 0 /\ there = {} /\ valid = {} /\ ob = {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     /\ ob' = {<<x, e.op>> : x \in Check(e)}
     /\ there' = CASE e.op = "put" /\ e.r = "ok" -> there \cup {<<e.d, e.n>>}
                   [] e.op = "lose" -> {p \in there : p[1] # e.d}
                   [] e.op = "all" /\ IsCache -> {}
                   [] e.op = "dump" -> {}
                   [] OTHER -> there
     /\ valid' = CASE e.op = "put" /\ e.r = "ok" -> valid \cup {<<e.d, e.d>>}
                   [] e.op = "offer" -> valid \cup {<<e.d, e.as>>}
                   [] OTHER -> valid
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
