------------------------------- MODULE TagOps --------------------------------
(***************************************************************************)
(* Tag expressions and queries: their meaning, and the algorithms of       *)
(* banyan-utils. An expression is [t, x, c]: a literal x, or the "and" or  *)
(* "or" of the expressions c. A normal form is a set of terms, and a term  *)
(* is a set of tags.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RECURSIVE Lits(_)
Lits(e) == IF e.t = "l" THEN {e.x} ELSE UNION {Lits(e.c[i]) : i \in DOMAIN e.c}

\* is it true for a set of tags
RECURSIVE Holds(_, _)
Holds(e, s) == CASE e.t = "l" -> e.x \in s
                 [] e.t = "and" -> \A i \in DOMAIN e.c : Holds(e.c[i], s)
                 [] e.t = "or" -> \E i \in DOMAIN e.c : Holds(e.c[i], s)
                 [] OTHER -> FALSE
SameMeaning(a, b) == \A s \in SUBSET (Lits(a) \cup Lits(b)) : Holds(a, s) = Holds(b, s)

DnfHolds(d, s) == \E t \in d : t \subseteq s

\* the unique normal form: the smallest sets of tags for which it is true
Canon(e) ==
  LET all == {s \in SUBSET Lits(e) : Holds(e, s)} IN
  {s \in all : \A u \in all : u \subseteq s => u = s}

(***************************************************************************)
(* The algorithm: terms are inserted one by one                            *)
(***************************************************************************)
Insert(d, b) == IF \E a \in d : a \subseteq b THEN d
                ELSE {a \in d : ~(b \subseteq a)} \cup {b}
RECURSIVE InsertAll(_, _)
InsertAll(d, s) == IF s = <<>> THEN d ELSE InsertAll(Insert(d, Head(s)), Tail(s))
OrD(a, b) == InsertAll(a, SetToSeq(b))
AndD(a, b) == InsertAll({}, SetToSeq({x \cup y : x \in a, y \in b}))
RECURSIVE DnfOf(_)
DnfOf(e) ==
  IF e.t = "l" THEN {{e.x}}
  ELSE LET ds == [i \in DOMAIN e.c |-> DnfOf(e.c[i])] IN
       FoldLeft(LAMBDA a, b : IF e.t = "or" THEN OrD(a, b) ELSE AndD(a, b), ds[1], Tail(ds))

\* simplification: nested operators of the same kind are flattened, single ones removed
RECURSIVE Simp(_)
Simp(e) ==
  IF e.t = "l" THEN e
  ELSE LET sub == FlattenSeq([i \in DOMAIN e.c |-> LET y == Simp(e.c[i]) IN IF y.t = e.t THEN y.c ELSE <<y>>]) IN
       IF Len(sub) = 1 THEN sub[1] ELSE [t |-> e.t, x |-> "", c |-> sub]

(***************************************************************************)
(* Tag index                                                               *)
(***************************************************************************)
\* positions (from 0) of elements els (sequence of sets) that match the normal form d
Matching(els, d) == SelectSeq([i \in DOMAIN els |-> i - 1], LAMBDA i : DnfHolds(d, els[i + 1]))

(***************************************************************************)
(* Queries over events [l, t, tags]: terms with a time range               *)
(***************************************************************************)
TermHolds(k, e) == /\ k.tags \subseteq e.tags
                   /\ k.form = "tags" \/ (k.lo <= e.t /\ e.t <= k.hi)
QueryHolds(q, e) == \E i \in DOMAIN q : TermHolds(q[i], e)
\* the summary of some events, and whether something below it may match
SumOf(es) == [lo |-> Min({e.t : e \in es}), hi |-> Max({e.t : e \in es}), tags |-> UNION {e.tags : e \in es}]
MayTerm(k, s) == /\ k.tags \subseteq s.tags
                 /\ k.form = "tags" \/ ~(s.hi < k.lo \/ s.lo > k.hi)
MayQuery(q, s) == \E i \in DOMAIN q : MayTerm(q[i], s)
=============================================================================
