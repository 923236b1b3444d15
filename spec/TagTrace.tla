------------------------------ MODULE TagTrace -------------------------------
(***************************************************************************)
(* Checks what banyan-utils did with expressions, tag indexes and queries. *)
(***************************************************************************)
EXTENDS TagOps, Json, IOUtils
CONSTANTS PROP, MODE

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, els, ob
vars == <<ep, i, els, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Sets(x) == {ToSet(x[j]) : j \in DOMAIN x}
Evs == Tr[ep].ev

Dnfs(e) ==
  IF e.r # "ok" THEN {"panic"}
  ELSE F(\A s \in SUBSET Lits(e.e) : DnfHolds(Sets(e.dnf), s) = Holds(e.e, s), "meaning of the normal form")
       \cup F(Cardinality(Sets(e.dnf)) = Len(e.dnf) /\ \A a, b \in Sets(e.dnf) : a \subseteq b => a = b, "redundant terms")
       \cup F(Sets(e.dnf) = Canon(e.e), "not the unique normal form")
       \cup F(SameMeaning(e.back, e.e) /\ SameMeaning(e.back1, e.e), "meaning of the expression for the normal form")
       \cup F(Sets(e.again) = Sets(e.dnf), "normal form of the normal form")
       \cup F(SameMeaning(e.simp, e.e), "meaning after simplification")
       \cup F(SameMeaning(e.built, e.e), "meaning after construction")
       \cup F(SameMeaning(e.shown, e.e) /\ SameMeaning(e.shownback, e.e), "meaning of the printed form")
\* equality of normal forms is equality of meaning, over all pairs of the episode
EqOK == LET es == Tr[ep].es IN
  F(\A a, b \in DOMAIN es : Tr[ep].eq[a][b] = SameMeaning(es[a], es[b]), "equality of normal forms")

Index(e) ==
  IF e.r # "ok" THEN {"panic"}
  ELSE LET x == [j \in DOMAIN Tr[ep].els |-> ToSet(Tr[ep].els[j])]
           qs == Tr[ep].qs
           same(y) == Len(y) = Len(x) /\ \A j \in DOMAIN x : ToSet(y[j]) = x[j]
       IN F(same(e.all), "elements") \cup F(same(e.got), "get") \cup F(e.over, "get beyond the end")
          \cup F(\A j \in DOMAIN qs : e.m[j] = Matching(x, Sets(qs[j])), "matching")

Evt(e) == [l |-> e.l, t |-> e.t, tags |-> ToSet(e.tags)]
Trm(k) == [form |-> k.form, lo |-> k.lo, hi |-> k.hi, tags |-> ToSet(k.tags)]
Query(e) ==
  IF e.r # "ok" THEN {"failed"}
  ELSE IF e.op # "query" THEN {}
  ELSE LET q == [j \in DOMAIN e.q |-> Trm(e.q[j])]
           m == SelectSeq([j \in DOMAIN els |-> j], LAMBDA j : QueryHolds(q, els[j]))
       IN F(e.out = [j \in DOMAIN m |-> <<m[j] - 1, m[j] - 1>>], "matching events")
          \cup F(e.n = Len(els), "number of events")

Check(e) == CASE MODE = "dnf" -> Dnfs(e) [] MODE = "index" -> Index(e) [] MODE = "query" -> Query(e)

Init == ep \in DOMAIN Tr /\ i = 0 /\ els = <<>> /\ ob = IF MODE = "dnf" THEN EqOK ELSE {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     /\ ob' = {<<x, MODE>> : x \in Check(e)}
     /\ els' = IF MODE = "query" /\ e.op \in {"extend", "extend_unpacked"} /\ e.r = "ok"
               THEN els \o [j \in DOMAIN e.els |-> Evt(e.els[j])] ELSE els
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
