----------------------------- MODULE RfxSession -----------------------------
(* Encoders used by callers over time: creation, calls that compose a       *)
(* message block by block under a byte budget, success, failure (no space,  *)
(* bad request, no memory), destruction, and the client that receives what  *)
(* was delivered.  One action per block composed, as in the library.        *)
EXTENDS RfxCore

CONSTANTS
  Handle,           \* encoders
  Pos,              \* tile positions
  Content,          \* contents an image can give a position
  MaxTiles,         \* tiles per request
  MaxCalls,         \* calls in a history (bound for exhaustive search), 0: any number
  Caps,             \* capacities
  HLen, BLen, RLen, ELen,   \* lengths of header, begin, region and end blocks
  TLens,            \* possible lengths of a tile
  Infos,            \* rectangles and tables a request can carry, as one value
  MaxCount,         \* most tiles a message can count
  Modes             \* {TRUE}: progressive, {FALSE}: not

VARIABLES
  enc,              \* encoder states of live handles
  cli,              \* their clients
  truth,            \* per handle: contents of the images delivered
  call,             \* per handle: the call in progress, or Idle
  heap,             \* handles -> units of memory owned
  calls             \* calls begun
vars == <<enc, cli, truth, call, heap, calls>>

Least(a, b) == IF a < b THEN a ELSE b
Worst == CHOOSE n \in TLens : \A m \in TLens : m <= n
Idle == [phase |-> "idle"]
Live == DOMAIN enc

TileReq == [pos : Pos, c : Content]
TileSeqs == UNION {[1..n -> TileReq] : n \in 0..MaxTiles}

Init == /\ enc = Nothing /\ cli = Nothing /\ truth = Nothing
        /\ call = [h \in Handle |-> Idle] /\ heap = Nothing /\ calls = 0

Create(h, pro) ==
  /\ h \notin Live
  /\ enc' = Put(enc, h, Fresh(pro)) /\ cli' = Put(cli, h, NoClient) /\ truth' = Put(truth, h, Nothing)
  /\ heap' = Put(heap, h, 1)
  /\ UNCHANGED <<call, calls>>

Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
Destroy(h) ==
  /\ h \in Live /\ call[h].phase = "idle"
  /\ enc' = Without(enc, h) /\ cli' = Without(cli, h) /\ truth' = Without(truth, h)
  /\ heap' = IF Has("leak_history") /\ heap[h] > 1 THEN [heap EXCEPT ![h] = @ - 1] ELSE Without(heap, h)
  /\ UNCHANGED <<call, calls>>

Begin(h, key, tiles, bad, cap, info) ==
  /\ h \in Live /\ call[h].phase = "idle" /\ (MaxCalls > 0 => calls < MaxCalls)
  /\ LET k == CallOf(enc[h], [key |-> key, alpha |-> FALSE, tiles |-> tiles, bad |-> bad, info |-> info])
     IN  call' = [call EXCEPT ![h] = k @@ [pos |-> 0, cap |-> cap, oom |-> FALSE]]
  /\ calls' = IF MaxCalls > 0 THEN calls + 1 ELSE calls
  /\ UNCHANGED <<enc, cli, truth, heap>>

Room(k, n) == k.pos + n <= k.cap
Grown(k, n) == [k EXCEPT !.pos = @ + n]
Step(h, k) == call' = [call EXCEPT ![h] = k] /\ UNCHANGED <<enc, cli, truth, heap, calls>>

Header(h) ==
  /\ call[h].phase = "header" /\ Room(call[h], HLen)
  /\ Step(h, Grown(PutHeader(call[h]), HLen))
FrameBegin(h) ==
  /\ call[h].phase = "begin" /\ Room(call[h], BLen)
  /\ Step(h, Grown(PutBegin(call[h]), BLen))
Region(h) ==
  /\ call[h].phase = "region" /\ ~call[h].req.bad /\ Room(call[h], RLen)
  /\ Step(h, Grown(PutRegion(call[h], IF Has("stale_info") /\ enc[h].hdr THEN CHOOSE i \in Infos : TRUE ELSE call[h].req.info), RLen))

More(k) == k.phase = "tiles" /\ k.sent < Len(k.req.tiles)
(* room for the end of the frame is kept back *)
Tile(h, len, diff) ==
  /\ More(call[h]) /\ (diff => call[h].st.pro) /\ ~call[h].oom /\ (call[h].sent < MaxCount \/ Has("miscount"))
  /\ Room(call[h], len + (IF Has("no_reserve") THEN 0 ELSE ELen)) \/ Has("overrun")
  /\ Step(h, Grown(PutTile(call[h], diff), len))
(* the tiles end: all done, or the worst case does not fit, or no memory *)
Stop(h) ==
  /\ call[h].phase = "tiles"
  /\ \/ ~More(call[h])
     \/ ~Room(call[h], Worst + ELen)
     \/ call[h].oom \/ call[h].sent = MaxCount
     \/ Has("stop_early")
  /\ Step(h, IF More(call[h]) /\ call[h].st.pro /\ ~call[h].oom /\ call[h].sent < MaxCount
             THEN LET s == StopTiles(call[h]) IN [s EXCEPT !.st = Reserve(@, NextTile(call[h]))]
             ELSE StopTiles(call[h]))
(* memory for a position not seen before cannot be had *)
NoMemory(h) ==
  /\ More(call[h]) /\ call[h].st.pro /\ ~call[h].oom
  /\ NextTile(call[h]).pos \notin call[h].st.mem
  /\ Step(h, [call[h] EXCEPT !.oom = TRUE])
FrameEnd(h) ==
  /\ call[h].phase = "end" /\ Room(call[h], ELen)
  /\ (call[h].st.pro => call[h].sent > 0)
  /\ Step(h, Grown(PutEnd(call[h]), ELen))

Deliver(h) ==
  LET k == call[h]
  IN  /\ k.phase = "done"
      /\ enc' = [enc EXCEPT ![h] = AfterSuccess(k)]
      /\ cli' = [cli EXCEPT ![h] = ReceiveAll(@, k.msg, enc[h].pro)]
      /\ truth' = [truth EXCEPT ![h] = Truth(@, k)]
      /\ heap' = [heap EXCEPT ![h] = 1 + Cardinality(k.st.mem)]
      /\ call' = [call EXCEPT ![h] = Idle]
      /\ UNCHANGED calls

MustFail(k) ==
  \/ k.phase = "header" /\ ~Room(k, HLen)
  \/ k.phase = "begin" /\ ~Room(k, BLen)
  \/ k.phase = "region" /\ (k.req.bad \/ ~Room(k, RLen))
  \/ k.phase = "end" /\ (~Room(k, ELen) \/ (k.st.pro /\ k.sent = 0))
Fail(h) ==
  LET k == call[h]
  IN  /\ k.phase # "idle" /\ MustFail(k)
      /\ enc' = [enc EXCEPT ![h] = AfterFailure(k)]
      /\ heap' = [heap EXCEPT ![h] = 1 + Cardinality(k.st.mem)]
      /\ call' = [call EXCEPT ![h] = Idle]
      /\ UNCHANGED <<cli, truth, calls>>

Next ==
  \E h \in Handle :
    \/ \E pro \in Modes : Create(h, pro)
    \/ Destroy(h)
    \/ \E key \in BOOLEAN, ts \in TileSeqs, bad \in BOOLEAN, cap \in Caps, info \in Infos : Begin(h, key, ts, bad, cap, info)
    \/ h \in Live /\ call[h].phase # "idle" /\
         ( \/ Header(h) \/ FrameBegin(h) \/ Region(h)
           \/ \E len \in TLens, diff \in BOOLEAN : Tile(h, len, diff)
           \/ Stop(h) \/ NoMemory(h) \/ FrameEnd(h) \/ Deliver(h) \/ Fail(h) )
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C03 *)
ClientFollows == \A h \in Live : Followed(cli[h])
(* C13 *)
ClientInSync == \A h \in Live : InSync(cli[h], truth[h], enc[h].pro)
EncoderInSync == \A h \in Live : (enc[h].pro /\ enc[h].hdr) => SameContents(enc[h].refs, cli[h].held)
(* C04 *)
Confined == \A h \in Handle : call[h].phase = "idle" \/ call[h].pos <= call[h].cap
(* C01, C06 *)
WellFormed == \A h \in Handle : call[h].phase = "done" => OneFrame(call[h].msg)
Prefix == \A h \in Handle : call[h].phase \in {"end", "done"} => IsPrefixOfRequest(call[h])
AmpleCap(k) == HLen + BLen + RLen + ELen + Len(k.req.tiles) * Worst
TakesAll == \A h \in Handle : (call[h].phase = "done" /\ call[h].cap >= AmpleCap(call[h]) /\ ~call[h].oom)
                                 => call[h].sent = Least(Len(call[h].req.tiles), MaxCount)
(* C02: the message repeats the request *)
Echo == \A h \in Handle : call[h].phase = "done" => \E i \in 1..Len(call[h].msg) : call[h].msg[i] = RegionBlock(call[h].req.info)
(* C01: no count is larger than its field *)
Countable == \A h \in Handle : call[h].phase # "idle" => Len(TilesOf(call[h].msg)) <= MaxCount
AmpleSucceeds == \A h \in Handle :
   (call[h].phase # "idle" /\ call[h].cap >= AmpleCap(call[h]) /\ ~call[h].oom /\ ~call[h].req.bad /\ call[h].req.tiles # <<>>)
   => ~MustFail(call[h])
BadNeverDelivered == \A h \in Handle : call[h].phase = "done" => ~call[h].req.bad
(* C17 *)
HeapExact == DOMAIN heap = Live /\ \A h \in Live : call[h].phase = "idle" =>
                heap[h] = 1 + Cardinality(enc[h].mem) /\ DOMAIN enc[h].refs \subseteq enc[h].mem
                /\ heap[h] <= 1 + (IF enc[h].pro THEN Cardinality(Pos) ELSE 0)

(* C05: a step that ends a call without delivering leaves the encoder as it   *)
(* was, up to reserved memory; a restarted key frame leaves it fresh.         *)
Sees(e) == [pro |-> e.pro, hdr |-> e.hdr, idx |-> e.idx, refs |-> [p \in Pos |-> At(e.refs, p)]]
FailureInvisible ==
  [][\A h \in Handle :
       (h \in Live /\ h \in DOMAIN enc' /\ call[h].phase \notin {"idle", "done"} /\ call'[h].phase = "idle")
       => \/ Sees(enc'[h]) = Sees(enc[h])
          \/ call[h].req.key /\ enc[h].pro /\ Sees(enc'[h]) = Sees(Fresh(TRUE))]_vars
(* C15: a key frame is what a fresh encoder does *)
KeyIsFresh ==
  [][\A h \in Handle :
       (call[h].phase = "idle" /\ call'[h].phase # "idle" /\ h \in Live)
       => (IF call'[h].req.key /\ enc[h].pro
           THEN Sees(call'[h].st) = Sees(Fresh(TRUE)) /\ call'[h].phase = "header"
           ELSE Sees(call'[h].st) = Sees(enc[h]))]_vars
(* C16: a step touches one encoder only *)
Isolated ==
  [][\E h \in Handle : \A g \in Handle \ {h} :
       /\ call'[g] = call[g] /\ (g \in Live <=> g \in DOMAIN enc')
       /\ g \in Live => enc'[g] = enc[g] /\ cli'[g] = cli[g]]_vars
(* every call ends *)
Ends == \A h \in Handle : (h \in Live /\ call[h].phase # "idle") ~> (call[h].phase = "idle")
Fair == \A h \in Handle : WF_vars(h \in Live /\ call[h].phase # "idle" /\
         ( \/ Header(h) \/ FrameBegin(h) \/ Region(h) \/ \E len \in TLens, diff \in BOOLEAN : Tile(h, len, diff)
           \/ Stop(h) \/ FrameEnd(h) \/ Deliver(h) \/ Fail(h) ))
FairSpec == Spec /\ Fair
=============================================================================
