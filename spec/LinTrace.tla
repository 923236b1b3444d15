------------------------------ MODULE LinTrace -------------------------------
(***************************************************************************)
(* Several threads used the same store at the same time. The recorded      *)
(* calls and returns have to be linearizable with respect to the           *)
(* sequential store of StoreMC: there is an order of the operations which  *)
(* respects real time and in which each has the result of the sequential   *)
(* store. The variable front is the set of all reachable pairs             *)
(* <<operations done, contents in the store>> after i operations.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, front
vars == <<ep, i, front>>
T == Tr[ep]
Evs == T.ev
Total(S) == FoldSet(LAMBDA p, a : a + p[2], 0, S)
Has(S, d) == \E p \in S : p[1] = d
\* the operations which can be next: no other one that is not done returned before it was called
Ready(done) == {j \in DOMAIN Evs \ done : \A k \in DOMAIN Evs \ done : Evs[k].e > Evs[j].s}
\* the sequential store
Allowed(S, e) ==
  CASE e.op = "get" -> IF Has(S, e.d) THEN e.r = "ok" /\ e.out = e.d ELSE e.r = "err"
    [] e.op = "put" ->
         /\ e.same
         /\ IF T.kind # "mem" THEN e.r = "ok"
            ELSE IF Has(S, e.d) THEN e.r \in {"ok", "err"}
            ELSE e.r = (IF Total(S) + e.n <= T.limit THEN "ok" ELSE "err")
After(S, e) == IF e.op = "put" /\ e.r = "ok" THEN S \cup {<<e.d, e.n>>} ELSE S
Init == ep \in DOMAIN Tr /\ i = 0 /\ front = {<<{}, {}>>}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ front' = UNION {{<<x[1] \cup {j}, After(x[2], Evs[j])>> : j \in {k \in Ready(x[1]) : Allowed(x[2], Evs[k])}} : x \in front}
Spec == Init /\ [][Next]_vars
Bounds == CASE T.kind = "mem" -> T.held >= 0 /\ T.held <= T.limit
            [] T.kind = "cache" -> T.held <= T.cap /\ T.big <= T.maxblk
            [] OTHER -> TRUE
Conforms == (front # {} /\ Bounds) \/ (front = {} /\ PrintT(<<"BROKEN", T.id, i, "not linearizable">>))
            \/ (~Bounds /\ PrintT(<<"BROKEN", T.id, i, "limits">>))
=============================================================================
