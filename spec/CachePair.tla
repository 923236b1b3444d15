------------------------------ MODULE CachePair ------------------------------
(***************************************************************************)
(* The same history executed with different caches: all results have to be *)
(* the same as those without any cache (the first run).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, ob
vars == <<ep, i, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
\* everything but the accesses to the store
Obs(e) == [k \in DOMAIN e \ {"gets", "flt"} |-> e[k]]
R == Tr[ep].runs
Init == ep \in DOMAIN Tr /\ i = 0 /\ ob = {}
Next ==
  /\ i < Len(R[1].ev) /\ i' = i + 1 /\ ep' = ep
  /\ ob' = UNION {F(i < Len(R[j].ev) /\ Obs(R[j].ev[i + 1]) = Obs(R[1].ev[i + 1]),
                    <<"result depends on the cache", R[1].ev[i + 1].op, j>>) : j \in 2..Len(R)}
           \cup (IF i > 0 THEN {} ELSE
                 UNION {F(R[j].blocks = R[1].blocks /\ Len(R[j].ev) = Len(R[1].ev), <<"blocks depend on the cache", j>>) : j \in 2..Len(R)})
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
