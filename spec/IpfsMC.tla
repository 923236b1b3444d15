-------------------------------- MODULE IpfsMC --------------------------------
(***************************************************************************)
(* A client and its ipfs node. A reply is complete, cut off, or missing; a *)
(* subscription is a stream of tokens in which each message d is d times   *)
(* the token d and then 0, handed out by the node in any pieces, from      *)
(* which the client collects messages in a buffer.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS D, TOPICS, MAXOPS, FREE, GENPRINT
VARIABLES blocks, subs, res, n, hist
vars == <<blocks, subs, res, n, hist>>
View == <<blocks, subs, res, n>>

Whole == {"ok", "chunks", "split", "merge"}
Enc(d) == [i \in 1..d |-> d] \o <<0>>
\* the messages that are complete in what has arrived, and the rest
RECURSIVE Feed(_, _)
Feed(buf, got) ==
  IF 0 \notin ToSet(buf) THEN [buf |-> buf, got |-> got]
  ELSE LET k == CHOOSE i \in DOMAIN buf : buf[i] = 0 /\ \A j \in 1..(i - 1) : buf[j] # 0
           m == SubSeq(buf, 1, k - 1)
       IN Feed(SubSeq(buf, k + 1, Len(buf)), Append(got, IF m # <<>> /\ Len(m) = m[1] THEN m[1] ELSE -1))
Piece(s, p) == LET f == Feed(s.buf \o p, s.got) IN [s EXCEPT !.buf = f.buf, !.got = f.got]
Pieces(s, size) ==  \* all that the node holds
  LET ps == [i \in 1..((Len(s.wire) + size - 1) \div size) |-> SubSeq(s.wire, (i - 1) * size + 1, (IF i * size < Len(s.wire) THEN i * size ELSE Len(s.wire)))] IN
  [FoldLeft(Piece, s, ps) EXCEPT !.wire = <<>>]

Init == blocks = {} /\ subs = <<>> /\ res = [op |-> "", d |-> 0, mode |-> "", ok |-> TRUE, out |-> 0, had |-> FALSE] /\ n = 0 /\ hist = <<>>
Step(h) == n < MAXOPS /\ n' = n + 1 /\ hist' = Append(hist, h)

Put(d, mode) ==
  /\ Step([op |-> "put", d |-> d, mode |-> mode])
  /\ blocks' = IF mode = "404" THEN blocks ELSE blocks \cup {d}
  /\ res' = [op |-> "put", d |-> d, mode |-> mode, ok |-> mode \in Whole, out |-> 0, had |-> d \in blocks]
  /\ UNCHANGED subs
Get(d, mode) ==
  /\ Step([op |-> "get", d |-> d, mode |-> mode])
  /\ LET ok == d \in blocks /\ mode \in Whole IN
     res' = [op |-> "get", d |-> d, mode |-> mode, ok |-> ok, out |-> IF ok THEN d ELSE 0, had |-> d \in blocks]
  /\ UNCHANGED <<blocks, subs>>
Sub(t) ==
  /\ Step([op |-> "sub", topic |-> t, mode |-> "ok"])
  /\ Len(subs) < 2
  /\ subs' = Append(subs, [topic |-> t, wire |-> <<>>, buf |-> <<>>, got |-> <<>>, told |-> <<>>, state |-> "open"])
  /\ UNCHANGED <<blocks, res>>
Pub(t, d, mode) ==
  /\ Step([op |-> "pub", topic |-> t, d |-> d, mode |-> mode])
  /\ subs' = [j \in DOMAIN subs |->
       LET s == [subs[j] EXCEPT !.wire = @ \o Enc(d), !.told = Append(@, d)] IN
       IF subs[j].topic # t \/ subs[j].state # "open" \/ mode = "404" THEN subs[j]
       ELSE IF FREE \/ mode = "merge" THEN s
       ELSE Pieces(s, IF mode = "split" THEN 1 ELSE 100)]
  /\ UNCHANGED <<blocks, res>>
\* the node hands out some of what it holds
Deliver(j, k) ==
  /\ FREE /\ subs[j].state = "open" /\ k <= Len(subs[j].wire)
  /\ subs' = [subs EXCEPT ![j] = [Piece(@, SubSeq(@.wire, 1, k)) EXCEPT !.wire = SubSeq(@, k + 1, Len(@))]]
  /\ UNCHANGED <<blocks, res, n, hist>>
Close(j, mode) ==
  /\ subs[j].state = "open"
  /\ Step([op |-> "close", sub |-> j, mode |-> mode])
  /\ subs' = [subs EXCEPT ![j] = [(IF FREE /\ mode = "abort" THEN @ ELSE Pieces(@, 100)) EXCEPT !.state = IF mode = "abort" THEN "err" ELSE "end"]]
  /\ UNCHANGED <<blocks, res>>
Next ==
  \/ \E d \in D, mode \in {"ok", "404", "cut"} : Put(d, mode) \/ Get(d, mode)
  \/ \E t \in TOPICS : Sub(t) \/ \E d \in D, mode \in (IF FREE THEN {"ok", "404"} ELSE {"ok", "split", "merge", "404"}) : subs # <<>> /\ Pub(t, d, mode)
  \/ \E j \in DOMAIN subs : (\E k \in 1..4 : Deliver(j, k)) \/ \E mode \in {"ok", "abort"} : Close(j, mode)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E j \in DOMAIN subs : \E k \in 1..4 : Deliver(j, k))
GenAll == (GENPRINT /\ n = MAXOPS /\ (\E i \in DOMAIN hist : hist[i].op = "pub")) => PrintT(<<"HIST", ToJson(hist)>>)

C31 ==
  /\ res.op = "put" /\ res.ok => res.d \in blocks
  /\ res.op = "get" => (res.ok <=> res.had /\ res.mode \in Whole) /\ (res.ok => res.out = res.d)
  /\ \A j \in DOMAIN subs : LET s == subs[j] IN
       /\ IsPrefix(s.got, s.told)
       /\ s.state = "end" => s.got = s.told
       /\ s.state = "open" => s.got \o Feed(s.buf \o s.wire, <<>>).got = s.told
Waits(j) == j \in DOMAIN subs /\ subs[j].state = "open" /\ subs[j].wire # <<>>
C31live == \A j \in 1..2 : Waits(j) ~> ~Waits(j)
=============================================================================
