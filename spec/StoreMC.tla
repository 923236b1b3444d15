------------------------------- MODULE StoreMC -------------------------------
(***************************************************************************)
(* Block stores: a memory store with a limit, and a cache with a limit for *)
(* single blocks and for the total above a store that can fail and lose    *)
(* blocks. Eviction is not determined. Content d has size SIZE[d]; the     *)
(* link of a content is its number.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS SIZES,    \* sizes of the contents
          LIMIT, MAXBLK, CAP, MAXOPS, GENPRINT
SizesA == <<0, 1, 2, 3>>
SizesB == <<1, 2, 4>>
D == DOMAIN SIZES
Total(S) == FoldSet(LAMBDA d, a : a + SIZES[d], 0, S)

VARIABLES mem,      \* contents in the memory store
          inner,    \* contents in the store below the cache
          cache,    \* link -> content offered or put (a set of pairs)
          valid,    \* pairs <<link, content>> that were ever put or offered
          hist
vars == <<mem, inner, cache, valid, hist>>
View == <<mem, inner, cache, valid, Len(hist)>>
Init == mem = {} /\ inner = {} /\ cache = {} /\ valid = {} /\ hist = <<>>
Log(h) == Len(hist) < MAXOPS /\ hist' = Append(hist, h)

On == MAXBLK > 0 /\ CAP > 0
\* insert into the cache, and evict something
Cached(l, d) ==
  IF ~On \/ SIZES[d] > MAXBLK THEN cache' = cache
  ELSE LET base == {p \in cache : p[1] # l} IN
       \E keep \in SUBSET (base \cup {<<l, d>>}) :
          /\ FoldSet(LAMBDA p, a : a + SIZES[p[2]], 0, keep) <= CAP
          /\ cache' = keep

Put(d) == /\ inner' = inner \cup {d} /\ valid' = valid \cup {<<d, d>>} /\ Cached(d, d)
          /\ Log([op |-> "put", d |-> d])
          /\ mem' = IF d \in mem \/ Total(mem) + SIZES[d] <= LIMIT THEN mem \cup {d} ELSE mem
PutFail(d) == Log([op |-> "putfail", d |-> d]) /\ UNCHANGED <<mem, inner, cache, valid>>
Offer(l, d) == /\ valid' = valid \cup {<<l, d>>} /\ Cached(l, d)
               /\ Log([op |-> "offer", d |-> l, as |-> d]) /\ UNCHANGED <<mem, inner>>
Lose(d) == d \in inner /\ inner' = inner \ {d} /\ Log([op |-> "lose", d |-> d]) /\ UNCHANGED <<mem, cache, valid>>
Next == \E d \in D : Put(d) \/ PutFail(d) \/ Lose(d) \/ \E l \in D : Offer(l, d)
Spec == Init /\ [][Next]_vars

GenAll == (GENPRINT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)
\* what a get through the cache returns: 0 if nothing
Get(l) == LET c == {p \in cache : p[1] = l} IN
          IF c # {} THEN (CHOOSE p \in c : TRUE)[2] ELSE IF l \in inner THEN l ELSE 0
C16 == /\ \A l \in D : Get(l) # 0 => <<l, Get(l)>> \in valid
       /\ \A l \in inner : Get(l) # 0
       /\ \A p \in cache : SIZES[p[2]] <= MAXBLK
       /\ FoldSet(LAMBDA p, a : a + SIZES[p[2]], 0, cache) <= CAP
C22 == Total(mem) <= LIMIT
=============================================================================
