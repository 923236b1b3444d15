------------------------------ MODULE IpfsTrace ------------------------------
(***************************************************************************)
(* The client for ipfs nodes. The state is that of the node: the blocks it *)
(* holds, and for each subscription the messages handed to the client and  *)
(* those held back. The mode of an event says how the node dealt with the  *)
(* request: all replies may come in pieces, may fail, or may be cut.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS PROP
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, i, blocks, subs, ob
vars == <<ep, i, blocks, subs, ob>>
F(cond, label) == IF cond THEN {} ELSE {label}
Evs == Tr[ep].ev

Refused == {"404", "500", "key500", "drop"}     \* the node did nothing
Whole == {"ok", "chunks", "split", "merge"}      \* a complete reply
Codec == (113 :> "cbor") @@ (112 :> "protobuf") @@ (85 :> "raw")

Put(e, format, pin) ==
  F(e.r = (IF e.mode \in Whole THEN "ok" ELSE "err"), "result of a put")
  \cup F(e.r = "ok" => e.same, "link of a block")
  \cup F(e.mode \in Refused \/ e.stored = <<e.d>>, "block sent to the node")
  \cup F(e.reqs = <<<<"block/put", format, pin>>>>, "request")
Check(e) ==
  CASE e.op = "put" -> Put(e, "cbor", "false")
    [] e.op = "bput" -> IF e.codec \in DOMAIN Codec THEN Put(e, Codec[e.codec], IF e.pin THEN "true" ELSE "false")
                        ELSE F(e.r = "err" /\ e.reqs = <<>>, "unknown codec")
    [] e.op = "get" ->
         F(IF e.d \in blocks /\ e.mode \in Whole THEN e.r = "ok" /\ e.out = e.d ELSE e.r = "err", "block")
         \cup F(Len(e.reqs) = 1 /\ e.reqs[1][1] = "block/get", "request")
    [] e.op = "pub" ->
         F(e.r = (IF e.mode \in Whole THEN "ok" ELSE "err"), "result of a publication")
         \cup F(e.mode \in Refused \/ e.stored = <<e.d>>, "message sent to the node")
    [] e.op = "sub" -> F(e.r = (IF e.mode \in Whole THEN "ok" ELSE "err") /\ e.end # "panic", "result of a subscription")
    [] e.op = "recv" -> F(e.msgs = subs[e.sub].got /\ e.end = "", "messages")
    [] e.op = "close" ->
         F(e.msgs = subs[e.sub].got \o subs[e.sub].held, "messages")
         \cup F(e.end = (IF e.mode = "abort" THEN "err" ELSE "end"), "end of a subscription")
    [] e.op = "link" -> F(e.r = "ok" /\ e.good, "forms of a link")

Told(s, e) ==
  IF s.topic # e.topic THEN s
  ELSE IF e.mode = "merge" THEN [s EXCEPT !.held = Append(@, e.d)]
  ELSE [s EXCEPT !.got = @ \o s.held \o <<e.d>>, !.held = <<>>]

Init == ep \in DOMAIN Tr /\ i = 0 /\ blocks = {} /\ subs = <<>> /\ ob = {}
Next ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ ep' = ep
  /\ LET e == Evs[i + 1] IN
     /\ ob' = {<<x, e.op>> : x \in F(e.r # "panic", "panic") \cup Check(e)}
     /\ blocks' = IF e.op = "put" \/ (e.op = "bput" /\ e.codec \in DOMAIN Codec) THEN (IF e.mode \in Refused THEN blocks ELSE blocks \cup {e.d}) ELSE blocks
     /\ subs' = CASE e.op = "sub" /\ e.r = "ok" -> Append(subs, [topic |-> e.topic, got |-> <<>>, held |-> <<>>])
                  [] e.op = "pub" /\ e.mode \notin Refused -> [j \in DOMAIN subs |-> Told(subs[j], e)]
                  [] e.op = "close" -> [subs EXCEPT ![e.sub].topic = "*closed*", ![e.sub].got = @ \o subs[e.sub].held, ![e.sub].held = <<>>]
                  [] OTHER -> subs
Spec == Init /\ [][Next]_vars
Conforms == ob = {} \/ PrintT(<<"BROKEN", Tr[ep].id, i, ToString(ob)>>)
=============================================================================
