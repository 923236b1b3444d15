-------------------------------- MODULE CliMC ---------------------------------
(***************************************************************************)
(* Sequences of commands on a store. Each command loads a stream from its  *)
(* root, works on it with the algorithms of BanyanOps, and leaves a new    *)
(* root; all earlier roots stay usable. A stream is                        *)
(* [root, con, pw]: con has the number of each event, or -1 (forgotten).   *)
(***************************************************************************)
EXTENDS BanyanOps, Json
CONSTANTS LC, KB, SB, COUNTS, BEFORES, MAXN, MAXOPS, GENPRINT
VARIABLES strs, lost, nx, res, hist
vars == <<strs, lost, nx, res, hist>>
View == <<strs, lost, nx, res>>
C == [lc |-> LC, kb |-> KB, sb |-> SB, mus |-> INF]

FromLink(r) == MkBranch(C, r.id, r.ch)
Unf(root) == \E x \in Nodes(root) : ~x.s /\ x.id = 0
Ids(j) == BlockIds(strs[j].root)
Opens(j) == strs[j].root.id \notin lost
WholeS(j) == Ids(j) \cap lost = {}
Con(root) == LET f == TLCEval(Flat(root)) IN TLCEval([i \in DOMAIN f |-> f[i][2]])
Nums(k) == [i \in 1..k |-> <<i - 1, i - 1, 1>>]

Init == strs = <<>> /\ lost = {} /\ nx = 1 /\ res = [op |-> "", j |-> 0, ok |-> TRUE, out |-> <<>>, pw |-> ""] /\ hist = <<>>
Ready == Len(hist) < MAXOPS
Result(op, j, ok, out, pw) == res' = [op |-> op, j |-> j, ok |-> ok, out |-> out, pw |-> pw]
Log(h) == hist' = Append(hist, h)
New(root, con, pw) ==
  /\ strs' = IF root.id = 0 THEN strs ELSE Append(strs, [root |-> root, con |-> con, pw |-> pw])

\* batches of numbered events on top of a stream, or a new one
RECURSIVE Batches(_, _, _, _)
Batches(root, b, els, unb) == \* root: [nx, node, ok]
  IF b = <<>> \/ ~root.ok THEN root
  ELSE LET st == St(root.nx, Head(b), -1) IN
       Batches(IF unb THEN ExtendUnpacked(C, root.node, st) ELSE Extend(C, root.node, st), Tail(b), els, unb)
Build(j, k, b, unb) ==
  LET base == IF j = 0 THEN Nil ELSE FromLink(strs[j].root)
      bs == IF b = 1 THEN <<Nums(k)>> ELSE <<Nums(k), [i \in 1..k |-> <<k + i - 1, k + i - 1, 1>>]>>
      r == Batches([St(nx, <<>>, -1) EXCEPT !.node = base], bs, <<>>, unb)
      had == IF j = 0 THEN <<>> ELSE strs[j].con
  IN /\ Ready /\ Len(had) + b * k <= MAXN
     /\ j > 0 => Opens(j) /\ WholeS(j) /\ ~Unf(base)
     /\ r.ok /\ New(r.node, had \o [i \in 1..(b * k) |-> i - 1], IF j = 0 THEN "a" ELSE strs[j].pw) /\ nx' = r.nx
     /\ Result("build", j, TRUE, <<>>, "a")
     /\ Log([op |-> "build", from |-> j, count |-> k, batches |-> b, unb |-> unb])
     /\ UNCHANGED lost
Pack1(j) ==
  LET base == FromLink(strs[j].root)
      r == Pack(C, base, St(nx, <<>>, -1), [v \in 0..100 |-> 1])
  IN /\ Ready /\ Opens(j) /\ WholeS(j) /\ ~Unf(base) /\ ~IsPacked(base) /\ r.ok
     /\ New(r.node, strs[j].con, strs[j].pw) /\ nx' = r.nx
     /\ Result("pack", j, TRUE, <<>>, "a") /\ Log([op |-> "pack", from |-> j]) /\ UNCHANGED lost
Forget(j, before) ==
  LET base == FromLink(strs[j].root)
      r == Retain([q |-> "range", form |-> "from", lo |-> before, hi |-> before], base, St(nx, <<>>, -1))
  IN /\ Ready /\ Opens(j) /\ WholeS(j) /\ ~Unf(base) /\ r.ok
     /\ New(r.node, Con(r.node), strs[j].pw) /\ nx' = r.nx
     /\ Result("forget", j, TRUE, <<before>> \o Con(r.node), "a")
     /\ Log([op |-> "forget", from |-> j, before |-> before]) /\ UNCHANGED lost
Lose(j, k) ==
  LET ids == SetToSortSeq(Ids(j) \ lost, <) IN
  /\ Ready /\ k \in DOMAIN ids /\ Cardinality(lost) < 2
  /\ lost' = lost \cup {ids[k]} /\ Log([op |-> "lose", from |-> j, pick |-> k])
  /\ Result("lose", j, TRUE, <<>>, "a") /\ UNCHANGED <<strs, nx>>
Repair1(j) ==
  LET base == FromLink(strs[j].root)
      r == Repair(lost, base, St(nx, <<>>, -1)).st
  IN /\ Ready /\ Opens(j) /\ r.ok
     /\ New(r.node, Con(r.node), strs[j].pw) /\ nx' = r.nx
     /\ Result("repair", j, TRUE, <<>>, "a") /\ Log([op |-> "repair", from |-> j]) /\ UNCHANGED lost
\* reads print all or fail
Read(j, pw) ==
  LET ok == Opens(j) /\ pw = strs[j].pw /\ WholeS(j)
      out == IF ok THEN SelectSeq(Con(strs[j].root), LAMBDA v : v # -1) ELSE <<>>
  IN /\ Ready /\ Result("read", j, ok, out, pw) /\ Log([op |-> "dump-values", from |-> j, pw |-> pw])
     /\ UNCHANGED <<strs, lost, nx>>
Last2 == {j \in DOMAIN strs : j >= Len(strs) - 1}
Next ==
  \/ \E j \in Last2 \cup {0}, k \in COUNTS, b \in {1, 2}, unb \in BOOLEAN : (j > 0 \/ strs = <<>>) /\ Build(j, k, b, unb)
  \/ \E j \in Last2 : Pack1(j) \/ Repair1(j) \/ (\E b \in BEFORES : Forget(j, b)) \/ (\E k \in 1..12 : Lose(j, k)) \/ \E pw \in {"a", "b"} : Read(j, pw)
Spec == Init /\ [][Next]_vars
GenAll == (GENPRINT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)

-----------------------------------------------------------------------------
\* what can be reached
Reached(j) == LET f == TLCEval(FlatWithout(lost, strs[j].root)) IN TLCEval([i \in DOMAIN f |-> f[i][2]])
C32 ==
  \* all streams stay what they were made, and what can be reached of them is part of that
  /\ \A j \in DOMAIN strs : Con(strs[j].root) = strs[j].con /\ strs[j].root.n = Len(strs[j].con)
  /\ lost # {} => \A j \in DOMAIN strs : LET x == Reached(j)  c == strs[j].con IN \A i \in DOMAIN c : x[i] \in {c[i], -1}
  \* results
  /\ res.op = "read" =>
       LET s == strs[res.j] IN
       /\ res.ok => res.pw = s.pw /\ res.out = SelectSeq(s.con, LAMBDA v : v # -1)
       /\ ~res.ok => res.out = <<>> /\ (res.pw # s.pw \/ BlockIds(s.root) \cap lost # {})
  /\ res.op = "forget" =>
       LET old == strs[res.j]
           f == Tail(res.out)
           ls == Leaves(FromLink(old.root))
           o(i) == SumSeq([x \in 1..(i - 1) |-> ls[x].n])
       IN /\ \A i \in DOMAIN f : f[i] = old.con[i] \/ (f[i] = -1 /\ i - 1 < res.out[1])
          /\ \A i \in DOMAIN ls : (\A x \in 1..i : ls[x].s) /\ o(i) + ls[i].n <= res.out[1] => \A x \in 1..ls[i].n : f[o(i) + x] = -1
  /\ res.op = "repair" /\ res.j < Len(strs) => LET x == Reached(res.j) IN \E j \in DOMAIN strs : strs[j].con = x /\ BlockIds(strs[j].root) \cap lost = {}
  /\ res.op = "pack" => IsPacked(Last(strs).root) /\ Last(strs).con = strs[res.j].con
=============================================================================
