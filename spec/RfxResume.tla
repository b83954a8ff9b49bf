----------------------------- MODULE RfxResume -----------------------------
(* A caller with one image to send through one encoder: it asks for all tiles, *)
(* and whenever a message held only some of them asks for the rest, with       *)
(* whatever buffer it happens to have; calls that fail are made again.          *)
EXTENDS MC_Session
CONSTANTS Image      \* the tiles to send
VARIABLES todo,      \* tiles still to be sent
          got        \* positions received, in order
rvars == <<vars, todo, got>>
H == CHOOSE h \in Handle : TRUE
RInit == Init /\ todo = Image /\ got = <<>>
Ask == /\ todo # <<>>
       /\ \E cap \in Caps, info \in Infos : Begin(H, FALSE, todo, FALSE, cap, info)
       /\ UNCHANGED <<todo, got>>
Compose == /\ call[H].phase \notin {"idle", "done"}
           /\ \/ Header(H) \/ FrameBegin(H) \/ Region(H) \/ Stop(H) \/ FrameEnd(H) \/ Fail(H)
              \/ \E len \in TLens, diff \in BOOLEAN : Tile(H, len, diff)
           /\ UNCHANGED <<todo, got>>
Take == LET k == call[H] IN
        /\ Deliver(H)
        /\ todo' = SubSeq(todo, (IF Has("resume_off") /\ k.sent > 1 THEN k.sent ELSE k.sent + 1), Len(todo))
        /\ got' = got \o [i \in 1..Len(TilesOf(k.msg)) |-> TilesOf(k.msg)[i].pos]
RNext == \/ (\E pro \in Modes : Create(H, pro)) /\ UNCHANGED <<todo, got>>
         \/ H \in Live /\ (Ask \/ Compose \/ Take)
RSpec == RInit /\ [][RNext]_rvars

Positions(ts) == [i \in 1..Len(ts) |-> ts[i].pos]
(* every tile exactly once and in order: what was received and what is to do   *)
(* make up the image                                                           *)
NothingLost == got \o Positions(todo) = Positions(Image)
(* in the end the client has the image *)
Complete == (todo = <<>> /\ H \in Live /\ enc[H].pro) =>
              \A i \in 1..Len(Image) : (\A j \in (i + 1)..Len(Image) : Image[j].pos # Image[i].pos) => At(cli[H].held, Image[i].pos) = Image[i].c
(* with buffers that always take a tile, it gets there: liveness.  (calls are   *)
(* not counted here)                                                           *)
EnoughCaps == \A c \in Caps : c >= HLen + BLen + RLen + Worst + ELen
RFair == WF_rvars(H \in Live /\ (Ask \/ Compose \/ Take)) /\ WF_rvars((\E pro \in Modes : Create(H, pro)) /\ UNCHANGED <<todo, got>>)
RFairSpec == RSpec /\ RFair
Arrives == <>(todo = <<>>)

T(p, c) == [pos |-> p, c |-> c]
Image3 == <<T(1, 1), T(2, 0), T(1, 0)>>
Image4 == <<T(1, 1), T(2, 1), T(1, 0), T(2, 0)>>
=============================================================================
