------------------------------- MODULE RfxGen -------------------------------
(* Behaviours of RfxSession as sequences of calls, for replay on the library: *)
(* run with -simulate; every behaviour that ends prints its history.          *)
EXTENDS MC_Session, Json

VARIABLE hist
AllIdle(c) == \A h \in Handle : c[h].phase = "idle"
Over == calls = MaxCalls /\ AllIdle(call)

Event ==
  IF \E h \in Handle : h \notin Live /\ h \in DOMAIN enc'
  THEN LET h == CHOOSE h \in Handle : h \notin Live /\ h \in DOMAIN enc'
       IN  <<[op |-> "create", h |-> h, pro |-> enc'[h].pro]>>
  ELSE IF \E h \in Handle : h \in Live /\ h \notin DOMAIN enc'
  THEN LET h == CHOOSE h \in Handle : h \in Live /\ h \notin DOMAIN enc'
       IN  <<[op |-> "destroy", h |-> h]>>
  ELSE IF \E h \in Handle : call[h].phase # "idle" /\ call'[h].phase = "idle"
  THEN LET h == CHOOSE h \in Handle : call[h].phase # "idle" /\ call'[h].phase = "idle"
           k == call[h]
       IN  <<[op |-> "call", h |-> h, key |-> k.req.key, bad |-> k.req.bad, oom |-> k.oom,
              tiles |-> [i \in 1..Len(k.req.tiles) |-> <<k.req.tiles[i].pos, k.req.tiles[i].c>>],
              stage |-> k.phase, sent |-> k.sent]>>
  ELSE <<>>

(* the same transitions as Next, requests drawn with weights so that failing   *)
(* and succeeding calls, key frames and repeated positions mix               *)
CONSTANTS KeyOneIn, BadOneIn
Draw(S) == {RandomElement(S)}
GenBegin(h) ==
  \E n \in Draw(0..MaxTiles), key \in {RandomElement(1..KeyOneIn) = 1}, bad \in {RandomElement(1..BadOneIn) = 1}, cap \in Draw(Caps) :
    \E ps \in Draw([1..n -> Pos]), cs \in Draw([1..n -> Content]) :
      Begin(h, key, [i \in 1..n |-> [pos |-> ps[i], c |-> cs[i]]], bad, cap, CHOOSE i \in Infos : TRUE)
GenAny ==
  \E h \in Handle :
    \/ \E pro \in Modes : Create(h, pro)
    \/ RandomElement(1..6) = 1 /\ Destroy(h)
    \/ GenBegin(h) \/ GenBegin(h) \/ GenBegin(h)
    \/ h \in Live /\ call[h].phase # "idle" /\
         ( \/ Header(h) \/ FrameBegin(h) \/ Region(h)
           \/ \E len \in TLens, diff \in BOOLEAN : Tile(h, len, diff)
           \/ Stop(h) \/ (RandomElement(1..10) = 1 /\ NoMemory(h)) \/ FrameEnd(h) \/ Deliver(h) \/ Fail(h) )
GenInit == Init /\ hist = <<>>
GenNext ==
  /\ ~Over
  /\ GenAny
  /\ hist' = hist \o Event
  /\ (calls' = MaxCalls /\ AllIdle(call')) => PrintT(<<"BEHAVIOUR", ToJson(hist')>>)
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
=============================================================================
