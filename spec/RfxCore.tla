------------------------------ MODULE RfxCore ------------------------------
(* What an encoder keeps between calls, what a message is, what a client    *)
(* keeps, and how one call turns the first into the second and the second   *)
(* into the third.  Pure operators: RfxSession makes a state machine of     *)
(* them for exhaustive checking, RfxTrace applies the same operators to     *)
(* messages recorded from the library.                                      *)
(*                                                                          *)
(* "Content" is what a progressive tile position holds (quantised           *)
(* coefficients); the two specifications give it different types.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS
  Zero,             \* content of a position never sent
  Sub(_, _),        \* difference of two contents, as sent in a difference tile
  Add(_, _),        \* a client's inverse of it
  CtrZero,          \* frame numbers: first one,
  CtrNext(_),       \* ... and successor
  Bug               \* names of design mistakes switched on ({} normally)

Has(name) == name \in Bug

(* sparse functions from positions to contents *)
Nothing == <<>>
At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE Zero
Put(f, p, v) == (p :> v) @@ f
SameContents(f, g) == \A p \in DOMAIN f \cup DOMAIN g : At(f, p) = At(g, p)

----------------------------------------------------------------------------
(* Encoder: progressive or not; header delivered; number of the next frame; *)
(* per-position history; positions with memory of their own.                *)
Fresh(pro) == [pro |-> pro, hdr |-> FALSE, idx |-> CtrZero, refs |-> Nothing, mem |-> {}]

(* Client: a stream has begun; frame number it expects next; contents held; *)
(* broken once it sees what no client can follow.                           *)
NoClient == [open |-> FALSE, next |-> CtrZero, held |-> Nothing, broken |-> FALSE]

(* A message is a sequence of blocks.                                       *)
HeaderBlock == [t |-> "header"]
BeginBlock(no) == [t |-> "begin", no |-> no]
RegionBlock(info) == [t |-> "region", info |-> info]
TileBlock(p, diff, data) == [t |-> "tile", pos |-> p, diff |-> diff, data |-> data]
EndBlock == [t |-> "end"]

(* What a client does with one block, and with a message.                    *)
Receive(c, b, pro) ==
  CASE b.t = "header" -> [NoClient EXCEPT !.open = TRUE, !.broken = c.broken \/ (c.open /\ ~pro)]
    [] b.t = "begin"  -> IF c.open /\ b.no = c.next THEN [c EXCEPT !.next = CtrNext(@)]
                         ELSE [c EXCEPT !.broken = TRUE]
    [] b.t = "tile"   -> IF ~pro THEN c
                         ELSE [c EXCEPT !.held = Put(@, b.pos, IF b.diff THEN Add(At(@, b.pos), b.data) ELSE b.data)]
    [] OTHER -> c

ReceiveAll(c, msg, pro) == FoldLeft(LAMBDA a, b : Receive(a, b, pro), c, msg)

----------------------------------------------------------------------------
(* A call: the request, the encoder state it works on (from), the state it  *)
(* leaves if it succeeds (st), the message so far.                          *)
(* req = [key, alpha, tiles, bad]; a tile request is [pos, c].              *)
Restart(e) == IF Has("key_keeps_refs") THEN [Fresh(e.pro) EXCEPT !.refs = e.refs]
              ELSE IF Has("key_keeps_number") THEN [Fresh(e.pro) EXCEPT !.idx = e.idx]
              ELSE IF Has("key_keeps_header") THEN [Fresh(e.pro) EXCEPT !.hdr = e.hdr]
              ELSE Fresh(e.pro)
Restarts(e, req) == req.key /\ (e.pro \/ Has("key_always"))
CallOf(e, req) ==
  LET s == IF Restarts(e, req) THEN Restart(e) ELSE e
  IN  [req |-> req, from |-> e, st |-> s, msg |-> <<>>, sent |-> 0,
       phase |-> IF s.hdr THEN "begin" ELSE "header"]

PutHeader(k) == [k EXCEPT !.msg = Append(@, HeaderBlock), !.st.hdr = TRUE, !.phase = "begin"]
PutBegin(k) == [k EXCEPT !.msg = Append(@, BeginBlock(k.st.idx)), !.st.idx = CtrNext(@), !.phase = "region"]
PutRegion(k, info) == [k EXCEPT !.msg = Append(@, RegionBlock(info)), !.phase = "tiles"]

NextTile(k) == k.req.tiles[k.sent + 1]
(* the data a tile carries *)
TileData(st, t, diff) == IF diff THEN Sub(t.c, At(st.refs, t.pos)) ELSE t.c
(* memory for a position is taken before the tile is known to fit *)
Reserve(st, t) == IF st.pro THEN [st EXCEPT !.mem = @ \cup {t.pos}] ELSE st
Remember(st, t) == IF st.pro THEN [Reserve(st, t) EXCEPT !.refs = Put(@, t.pos, t.c)] ELSE st
PutTile(k, diff) ==
  LET t == NextTile(k)
  IN  [k EXCEPT !.msg = Append(@, TileBlock(t.pos, diff, TileData(k.st, t, diff))),
                !.st = IF Has("no_update_on_diff") /\ diff THEN Reserve(@, t) ELSE Remember(@, t),
                !.sent = @ + 1]
StopTiles(k) ==
  [k EXCEPT !.phase = "end",
            !.st = IF k.sent < Len(k.req.tiles) /\ Has("update_before_fit") THEN Remember(@, NextTile(k)) ELSE @]
PutEnd(k) == [k EXCEPT !.msg = Append(@, EndBlock), !.phase = "done"]

(* what the encoder is left with *)
AfterSuccess(k) == k.st
(* a failing call leaves everything as it was, but memory may have been      *)
(* taken for positions, and a key frame may have restarted the stream         *)
AfterFailure(k) ==
  LET base == IF Restarts(k.from, k.req) THEN Restart(k.from) ELSE k.from
      e0 == IF Has("fail_uses_number") THEN [base EXCEPT !.idx = k.st.idx]
            ELSE IF Has("fail_uses_header") THEN [base EXCEPT !.hdr = k.st.hdr]
            ELSE IF Has("fail_keeps_history") THEN [base EXCEPT !.refs = k.st.refs]
            ELSE base
  IN  [e0 EXCEPT !.mem = k.st.mem]

(* contents of the latest images delivered since the stream began *)
Truth(tr, k) ==
  FoldLeft(LAMBDA f, i : Put(f, k.req.tiles[i].pos, k.req.tiles[i].c),
           IF Len(k.msg) > 0 /\ k.msg[1].t = "header" THEN Nothing ELSE tr,
           [i \in 1..k.sent |-> i])

----------------------------------------------------------------------------
(* What C03, C06 and C13 say about a delivered message. *)
Followed(c) == ~c.broken
InSync(c, tr, pro) == pro => SameContents(c.held, tr)
TilesOf(msg) == SelectSeq(msg, LAMBDA b : b.t = "tile")
IsPrefixOfRequest(k) ==
  LET ts == TilesOf(k.msg)
  IN  Len(ts) = k.sent /\ Len(ts) <= Len(k.req.tiles) /\ \A i \in 1..Len(ts) : ts[i].pos = k.req.tiles[i].pos
OneFrame(msg) ==
  LET hd == IF Len(msg) > 0 /\ msg[1].t = "header" THEN 1 ELSE 0
  IN  /\ Len(msg) >= hd + 3
      /\ msg[hd + 1].t = "begin" /\ msg[hd + 2].t = "region" /\ msg[Len(msg)].t = "end"
      /\ \A i \in (hd + 3)..(Len(msg) - 1) : msg[i].t = "tile"
=============================================================================
