-------------------------------- MODULE TagMC --------------------------------
(***************************************************************************)
(* All expressions up to a size, built from literals bottom up; all tag    *)
(* sets and queries over few tags.                                         *)
(***************************************************************************)
EXTENDS TagOps, Json
CONSTANTS TAGS, MAXOPS, GENPRINT
VARIABLES st,     \* stack of expressions (the expression so far in postfix order)
          n
vars == <<st, n>>
Lit(x) == [t |-> "l", x |-> x, c |-> <<>>]
Init == st = <<>> /\ n = 0
Push == /\ n < MAXOPS /\ \E x \in TAGS : st' = Append(st, Lit(x))
        /\ n' = n + 1
Join == \E k \in 1..Len(st), op \in {"and", "or"} :
          /\ st' = Append(SubSeq(st, 1, Len(st) - k), [t |-> op, x |-> "", c |-> SubSeq(st, Len(st) - k + 1, Len(st))])
          /\ n < MAXOPS /\ n' = n + 1
Next == Push \/ Join
Spec == Init /\ [][Next]_vars
Terms == SUBSET TAGS

E == st[1]
GenAll == (GENPRINT /\ Len(st) = 1) => PrintT(<<"HIST", ToJson(E)>>)
\* meaning, no redundant terms, uniqueness
C19 == Len(st) = 1 =>
  /\ \A s \in Terms : DnfHolds(DnfOf(E), s) = Holds(E, s)
  /\ \A a, b \in DnfOf(E) : a \subseteq b => a = b
  /\ DnfOf(E) = Canon(E)
  /\ SameMeaning(Simp(E), E)
\* a query that does not match a summary matches nothing below, whatever the terms and events
Ev == [l : {0}, t : 1..2, tags : Terms]
Q1 == [form : {"range"}, lo : 1..2, hi : 1..2, tags : Terms] \cup [form : {"tags"}, lo : {0}, hi : {0}, tags : Terms]
C20 == n = 0 =>
  \A k \in Q1 : \A a, b \in Ev :
     (QueryHolds(<<k>>, a) \/ QueryHolds(<<k>>, b)) => MayQuery(<<k>>, SumOf({a, b}))
=============================================================================
