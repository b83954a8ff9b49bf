------------------------------ MODULE RfxTrace ------------------------------
(* Checks recorded calls of the library against the specification.          *)
(*                                                                          *)
(* The trace is a file of JSON lines.  Line 1 names the aspects this check  *)
(* owns; an observation that contradicts the specification in an aspect it  *)
(* does not own is adopted (another check reports it) and checking goes on. *)
(* A call that crashed is rejected by every check.                          *)
EXTENDS RfxBase, RfxRlgr, RfxTransform, RfxColor, RfxAlpha, RfxWire, RfxClient, FiniteSets, Json, IOUtils

(* contents of progressive positions: three planes of 4096 coefficients *)
Z4096 == TLCEval([i \in 1..4096 |-> 0])
TZero == <<Z4096, Z4096, Z4096>>
Sub1(a, b) == TLCEval([i \in 1..4096 |-> Wrap16(a[i] - b[i])])
Add1(a, b) == TLCEval([i \in 1..4096 |-> Wrap16(a[i] + b[i])])
TSub(a, b) == <<Sub1(a[1], b[1]), Sub1(a[2], b[2]), Sub1(a[3], b[3])>>
TAdd(a, b) == <<Add1(a[1], b[1]), Add1(a[2], b[2]), Add1(a[3], b[3])>>
C == INSTANCE RfxCore WITH Zero <- TZero, Sub <- TSub, Add <- TAdd, CtrZero <- <<0, 0>>, CtrNext <- CtrInc, Bug <- {}

TraceFile == IOEnv.RFX_TRACE
Trace == ndJsonDeserialize(TraceFile)
Cfg == Trace[1]
Owned == {Cfg.aspects[i] : i \in 1..Len(Cfg.aspects)}
Owns(a) == a \in Owned
SeqAspects == {"frame", "echo", "seq", "fail", "prefix", "payload", "color", "alpha", "choice", "client", "known"}
ReadsMessages == Owned \cap SeqAspects # {}

VARIABLES l, S, rej
vars == <<l, S, rej>>

(* an error: <<aspect, text>>; "any" is owned by every check *)
Chk(aspect, cond, text) == IF cond THEN <<>> ELSE <<<<aspect, text>>>>
Mine(errs) == SelectSeq(errs, LAMBDA e : e[1] = "any" \/ e[1] \in Owned)

Each3(f(_)) == f(1) \o f(2) \o f(3)

(* S.enc: handle -> [w, hgt, fmt, pro, mode, st, cli, own, bytes]            *)
(* S.known: encodings of classic tiles seen so far                           *)
(* S.grp: results that have to agree                                         *)
(* S.live, S.bytes: library memory in use                                    *)
S0 == [enc |-> <<>>, known |-> <<>>, grp |-> <<>>, live |-> 0, bytes |-> 0, tiles |-> 0, msgs |-> 0, fails |-> 0,
       coefs |-> 0, diffs |-> 0, memo |-> <<>>, live0 |-> 0]

----------------------------------------------------------------------------
(* Creating and destroying (C17)                                            *)
FormatKnown(f) == f \in 0..4
FlagSet(v, bit) == (v \div bit) % 2 = 1
JCreate(e) ==
  LET good == FormatKnown(e.fmt) /\ e.oom = 0
      dl == e.live - S.live
      db == e.liveb - S.bytes
      errs == Chk("any", e.fault = 0, "creating an encoder crashed")
           \o Chk("resource", e.bad = 0, "memory was released that was not in use")
           \o Chk("resource", (e.ret = 0) <=> good, "creation succeeded or failed when it should not")
           \o Chk("resource", (e.ex = 1 /\ e.oom > 0) => e.ret = 1, "creation without memory must return 1")
           \o Chk("resource", (e.ex = 1 /\ e.oom = 0 /\ ~FormatKnown(e.fmt)) => e.ret = 2, "unknown format must return 2")
           \o Chk("resource", e.ret = 0 => dl > 0 /\ db > 0, "a new encoder owns no memory")
           \o Chk("resource", e.ret # 0 => dl = 0 /\ db = 0, "failed creation left memory allocated")
      rec == [w |-> e.w, hgt |-> e.hgt, fmt |-> e.fmt, pro |-> FlagSet(e.flags, 128),
              mode |-> IF FlagSet(e.flags, 1) THEN 1 ELSE 3,
              st |-> C!Fresh(FlagSet(e.flags, 128)), cli |-> C!NoClient, truth |-> <<>>,
              own |-> dl, own0 |-> dl, bytes |-> db, base |-> db, got |-> {}, ever |-> {}, grew |-> 0, prev |-> <<>>]
  IN  [errs |-> errs,
       S |-> [S EXCEPT !.live = e.live, !.bytes = e.liveb,
                       !.enc = IF e.ret = 0 THEN (e.h :> rec) @@ @ ELSE @]]

JDestroy(e) ==
  LET has == e.h \in DOMAIN S.enc
      errs == Chk("any", e.fault = 0, "destroying an encoder crashed")
           \o Chk("resource", e.bad = 0, "memory was released that was not in use")
           \o Chk("resource", e.ret = 0, "destroy must return 0")
           \o Chk("resource", has => (e.live = S.live - S.enc[e.h].own /\ e.liveb = S.bytes - S.enc[e.h].bytes),
                  "destroy did not give back exactly what the encoder had taken")
           \o Chk("resource", ~has => (e.live = S.live /\ e.liveb = S.bytes), "destroying a null handle changed memory")
           \o Chk("resource", (has /\ Cardinality(DOMAIN S.enc) = 1) => e.live = S.live0, "memory left after the last encoder is gone")
  IN  [errs |-> errs,
       S |-> [S EXCEPT !.live = e.live, !.bytes = e.liveb, !.enc = [x \in DOMAIN @ \ {e.h} |-> @[x]]]]

----------------------------------------------------------------------------
(* Requests                                                                 *)
TileOf(t) == [x |-> t[1], y |-> t[2], cx |-> t[3], cy |-> t[4], q |-> <<t[5], t[6], t[7]>>]
ReqTiles(e) == [i \in 1..Len(e.tiles) |-> TileOf(e.tiles[i])]
Quants(e) == IF e.dq = 1 THEN <<DefaultQuant>> ELSE e.quants
GridX(t) == t.x \div 64
GridY(t) == t.y \div 64
BadTile(n, pro, t) ==
  \/ \E j \in 1..3 : t.q[j] < 0 \/ t.q[j] >= n
  \/ pro /\ (t.x < 0 \/ t.y < 0 \/ GridX(t) >= 64 \/ GridY(t) >= 64)
(* counts that their fields in a message cannot hold *)
MaxRects == 65535  MaxTables == 255  MaxTiles == 65535
BadCounts(e) == e.nr < 0 \/ e.nr > MaxRects \/ (e.dq = 0 /\ (e.nq < 0 \/ e.nq > MaxTables))
BadRequest(e, E) == BadCounts(e) \/ \E i \in 1..Len(e.tiles) : BadTile(Len(Quants(e)), E.pro, TileOf(e.tiles[i]))
IsAlpha(e) == e.ex = 1 /\ FlagSet(e.flags, 1)
IsKey(e, E) == e.ex = 1 /\ FlagSet(e.flags, 256) /\ E.pro

(* capacity that always suffices *)
TileWorst == 22 + 3 * 24595 + 4720
Ample(e) == IF Len(e.tiles) > 20000 THEN 2147483647 ELSE 47 + 14 + 18 + 22 + 8 + 8 * Len(e.regs) + 5 * Len(Quants(e)) + TileWorst * Len(e.tiles)
(* capacity with which no valid request fails: the frame and one tile of it fit *)
Enough(e) == 47 + 14 + 18 + 22 + 8 + 8 * Len(e.regs) + 5 * Len(Quants(e)) + TileWorst * Mn(1, Len(e.tiles))

----------------------------------------------------------------------------
(* What a message has to say about the request (C02)                        *)
EchoErrs(e, E, m) ==
  LET b == e.out
      k == Len(m.offs) - 1
      ts == ReqTiles(e)
      pro == E.pro
  IN  Chk("echo", m.regs = e.regs, "region rectangles differ from the request")
   \o Chk("echo", m.quants = Quants(e), "quantisation tables differ from the request")
   \o Chk("echo", e.ret = k, "returned number of tiles is not the number in the message")
   \o Chk("echo", m.hdr /\ ~pro => (HdrWidth(b) = E.w % 65536 /\ HdrHeight(b) = E.hgt % 65536),
          "stream header does not state width and height")
   \o Chk("echo", m.hdr /\ ~pro => HdrProps(b) = CtxProps(E.mode), "stream header states wrong properties")
   \o Chk("echo", ~pro => m.props = TilesetProps(E.mode), "tile set states wrong properties")
   \o Chk("prefix", k <= Len(ts), "more tiles than requested")
   \o Chk("echo", k <= Len(ts), "more tiles than requested")
   \o Chk("echo", k <= Len(ts) => \A i \in 1..k : LET p == m.offs[i] IN
             /\ TlX(b, p) = GridX(ts[i]) /\ TlY(b, p) = GridY(ts[i])
             /\ TlQuants(b, p) = ts[i].q,
          "a tile's position or quantisation indices differ from the request")
   \o Chk("prefix", k <= Len(ts) => \A i \in 1..k : LET p == m.offs[i] IN
             TlX(b, p) = GridX(ts[i]) /\ TlY(b, p) = GridY(ts[i]),
          "the tiles are not a prefix of those requested")

(* form of the alpha data of the tile at p *)
AlphaForm(b, p) ==
  LET c == TlComp(b, p, TRUE)
      q == p + 21 + SumTo(c, 3)
  IN  c[4] >= 1 /\ (b[q + 1] = 16 \/ (b[q + 1] = 0 /\ c[4] = 4098 /\ b[q + 4098] = 0))

(* header and number of the message (C03; C05 after failed calls)            *)
SeqErrs(e, E, k0, m) ==
  Chk("seq", m.hdr <=> k0.phase = "header", IF m.hdr THEN "stream header where there must be none" ELSE "stream header missing")
  \o Chk("seq", m.no = k0.st.idx, "frame number is not the next one")

----------------------------------------------------------------------------
(* Tile payloads                                                            *)
Part(b, p, n) == SubSeq(b, p + 1, p + n)
CompAt(b, p, pro, alpha) == IF pro THEN PtComp(b, p) ELSE TlComp(b, p, alpha)
PayOff(pro, alpha) == IF pro THEN 22 ELSE TlHead(alpha)
CompBytes(b, p, pro, alpha, j) ==
  LET c == CompAt(b, p, pro, alpha)
  IN  Part(b, p + PayOff(pro, alpha) + SumTo(c, j - 1), c[j])

TileName(t) == "tile (" \o ToString(GridX(t)) \o "," \o ToString(GridY(t)) \o ") "
PlaneName == <<"luma", "first chroma", "second chroma">>
Px(e) == Trace[e.img].px
Stride(e) == Trace[e.img].stride
(* images in tiled YUV are recorded tile by tile *)
YuvPart(e, t, k) == LET tile == Trace[e.img].tl[YuvTile(e.off, Stride(e), t) + 1] IN SubSeq(tile, 4096 * k + 1, 4096 * k + 4096)
TilePlanes(e, E, t) == IF E.pro \/ E.fmt = YUV THEN <<YuvPart(e, t, 0), YuvPart(e, t, 1), YuvPart(e, t, 2)>>
                       ELSE PackedPlanes(Px(e), e.off, Stride(e), E.fmt, t)
TileAlpha(e, E, t) == IF E.fmt = YUV THEN YuvPart(e, t, 3) ELSE AlphaPlane(Px(e), e.off, Stride(e), E.fmt, t)

(* whether the planes have to be looked at in this check *)
NeedsPayload == Owned \cap {"payload", "color", "client"} # {}

(* classic tile i at p *)
ClassicTileErrs(e, E, t, p) ==
  LET b == e.out
      al == IsAlpha(e)
      pl == TLCEval(TilePlanes(e, E, t))
      qs == Quants(e)
      cf(j) == DiffTail(Classic(pl[j], qs[t.q[j] + 1]), 64)
      bytes(j) == CompBytes(b, p, FALSE, al, j)
      pay1(j) == LET r == TLCEval(AcceptAt(E.mode, cf(j), bytes(j)))
                 IN  Chk(IF Owns("payload") THEN "payload" ELSE "color", r = 0, TileName(t) \o PlaneName[j]
                         \o ": not the code of the prescribed coefficients, differs at bit " \o ToString(r))
      pay == IF Owns("payload") \/ Owns("color") THEN Each3(pay1) ELSE <<>>
      cl1(j) == LET r == TLCEval(ClientError(E.mode, bytes(j), qs[t.q[j] + 1], pl[j]))
                IN  Chk("client", r = "", TileName(t) \o PlaneName[j] \o ": " \o r)
      cl == IF Owns("client") THEN Each3(cl1) ELSE <<>>
      aerr == IF Owns("alpha") /\ al /\ HasAlpha(E.fmt)
              THEN LET c == TlComp(b, p, TRUE)
                   IN  Chk("alpha", AlphaOk(b, p + 21 + SumTo(c, 3), c[4], TileAlpha(e, E, t)),
                           TileName(t) \o "alpha data does not decode to the alpha plane")
              ELSE <<>>
  IN  pay \o cl \o aerr

(* contents of a progressive tile's image depend on these only *)
ProKey(e, t) == <<e.img, e.off, t.x, t.y, [j \in 1..3 |-> Quants(e)[t.q[j] + 1]]>>
(* progressive tile: returns [errs, c (contents)] given the history ref and   *)
(* the contents met before                                                   *)
ProTile(e, E, t, p, ref, memo) ==
  LET b == e.out
      pl == TLCEval(TilePlanes(e, E, t))
      qs == Quants(e)
      raw == TLCEval(<<ExtrapRaw(pl[1]), ExtrapRaw(pl[2]), ExtrapRaw(pl[3])>>)
      c == IF ProKey(e, t) \in DOMAIN memo THEN memo[ProKey(e, t)] ELSE
           TLCEval(<<ExtrapQuant(raw[1], qs[t.q[1] + 1]), ExtrapQuant(raw[2], qs[t.q[2] + 1]), ExtrapQuant(raw[3], qs[t.q[3] + 1])>>)
      flag == PtFlag(b, p)
      d == TLCEval(TSub(c, ref))
      data == IF flag = 1 THEN d ELSE c
      zeros(x) == Cardinality({i \in 1..4015 : x[1][i] = 0}) + Cardinality({i \in 1..4015 : x[2][i] = 0})
                  + Cardinality({i \in 1..4015 : x[3][i] = 0})
      asp == IF Owns("payload") THEN "payload" ELSE "color"
      pay1(j) == LET r == TLCEval(AcceptAt(1, DiffTail(data[j], 81), CompBytes(b, p, TRUE, FALSE, j)))
                 IN  Chk(asp, r = 0, TileName(t) \o PlaneName[j] \o (IF flag = 1 THEN " difference" ELSE "")
                         \o ": not the code of the prescribed coefficients, differs at bit " \o ToString(r))
      pay == IF Owns("payload") \/ Owns("color") THEN Each3(pay1) ELSE <<>>
      ch == IF ~Owns("choice") THEN <<>>
            ELSE Chk("choice", (flag = 1) <=> (zeros(d) > zeros(c)), "tile sent as a difference, or plain, although the other has more zeros")
      cl1(j) == LET r == TLCEval(ClientErrorPro(CompBytes(b, p, TRUE, FALSE, j), IF flag = 1 THEN ref[j] ELSE Z4096,
                                                qs[t.q[j] + 1], pl[j], raw[j], ~Owns("strict")))
                IN  Chk("client", r = "", TileName(t) \o PlaneName[j] \o ": " \o r)
      cl == IF Owns("client") THEN Each3(cl1) ELSE <<>>
  IN  [errs |-> pay \o ch \o cl, c |-> c, diff |-> flag = 1]

(* classic tiles: the same request must give the same bytes whatever went before *)
KeyOf(e, E, t) == <<E.fmt, E.mode, IsAlpha(e), e.img, e.off, t, [j \in 1..3 |-> Quants(e)[t.q[j] + 1]]>>

----------------------------------------------------------------------------
(* An encode call                                                           *)
UpTo(n) == [i \in 1..n |-> i]
ClassicTiles(e, E, m, known0) ==     \* <<errs, known>>
  LET one(acc, i) ==
        LET t == TileOf(e.tiles[i])
            p == m.offs[i]
            k == KeyOf(e, E, t)
            pay == Part(e.out, p + TlHead(IsAlpha(e)), TlLen(e.out, p) - TlHead(IsAlpha(e)))
            seen == Owns("known") /\ k \in DOMAIN acc[2]
            er == IF seen THEN Chk("known", acc[2][k] = pay, TileName(t) \o "the same tile was encoded differently before")
                  ELSE ClassicTileErrs(e, E, t, p)
        IN  IF acc[1] # <<>> THEN acc
            ELSE <<Mine(er), IF Owns("known") /\ ~seen THEN (k :> pay) @@ acc[2] ELSE acc[2]>>
  IN  FoldLeft(one, <<<<>>, known0>>, UpTo(Len(m.offs) - 1))

(* <<errs, call record after these tiles, difference tiles, contents met>> *)
ProTiles(e, E, m, kc0, memo0) ==
  LET one(acc, i) ==
        LET t == TileOf(e.tiles[i])
            pos == <<GridX(t), GridY(t)>>
            kc == acc[2]
            r == ProTile(e, E, t, m.offs[i], C!At(kc.st.refs, pos), acc[4])
            kc1 == [kc EXCEPT !.req.tiles = Append(@, [pos |-> pos, c |-> r.c])]
        IN  IF acc[1] # <<>> THEN acc
            ELSE <<Mine(r.errs), TLCEval(C!PutTile(kc1, r.diff)), acc[3] + (IF r.diff THEN 1 ELSE 0),
                   IF ProKey(e, t) \in DOMAIN acc[4] THEN acc[4] ELSE (ProKey(e, t) :> r.c) @@ acc[4]>>
  IN  FoldLeft(one, <<<<>>, kc0, 0, memo0>>, UpTo(Len(m.offs) - 1))

NeedsContents == Owned \cap {"payload", "color", "choice", "client"} # {}

MemErrs(e) ==
  Chk("any", e.fault = 0, "the call crashed: memory outside the buffers it was given was touched, or it did not end")
  \o Chk("mem", e.clean = 1, "bytes outside the output buffer were written")
  \o Chk("mem", (e.n >= 0 /\ e.n <= e.cap) \/ e.cap < 0, "more bytes reported than the buffer holds")

(* memory: apart from a few buffers an encoder may set up when first used, only *)
(* tile positions new to it let its memory grow (C17).                          *)
(* E.ever: positions asked for, E.got: delivered since the last restart,         *)
(* E.grew: calls after which more memory was in use without a new position       *)
PosOf(e) == {<<GridX(TileOf(e.tiles[i])), GridY(TileOf(e.tiles[i]))>> : i \in 1..Len(e.tiles)}
GotOf(e) == {<<GridX(TileOf(e.tiles[i])), GridY(TileOf(e.tiles[i]))>> : i \in 1..Mn(e.ret, Len(e.tiles))}
Asked(e, E) == IF E.pro THEN E.ever \cup PosOf(e) ELSE {}
Grew(e, E) == /\ e.live > S.live \/ e.liveb > S.bytes
              /\ ~E.pro \/ (~IsKey(e, E) /\ PosOf(e) \subseteq E.got)
ResErrs(e, E) ==
  LET dl == e.live - S.live  db == e.liveb - S.bytes
      n == Cardinality(Asked(e, E))
  IN  Chk("resource", e.bad = 0, "memory was released that was not in use")
   \o Chk("resource", E.bytes - E.base + db <= 65536 * n + 1048576 /\ E.own - E.own0 + dl <= 4 * n + 16,
          "more memory in use than the tile positions account for")
   \o Chk("resource", Grew(e, E) => E.grew < 2, "memory grows from call to call although no new tile position is used")

JEncode(e) ==
  LET E == S.enc[e.h]
      bad == BadRequest(e, E)
      key == IsKey(e, E)
      ts == ReqTiles(e)
      mem == IF e.fault = 0 THEN MemErrs(e) \o ResErrs(e, E) ELSE MemErrs(e)
      posns == {<<GridX(ts[i]), GridY(ts[i])>> : i \in 1..Len(ts)}
      k0 == C!CallOf(E.st, [key |-> key, alpha |-> IsAlpha(e), tiles |-> <<>>, bad |-> bad])
      res(s) == [s EXCEPT !.live = e.live, !.bytes = e.liveb,
                   !.enc[e.h].ever = Asked(e, E), !.enc[e.h].grew = @ + (IF Grew(e, E) THEN 1 ELSE 0),
                   !.enc[e.h].got = IF key THEN GotOf(e) ELSE @ \cup GotOf(e),
                   !.enc[e.h].own = @ + (e.live - S.live), !.enc[e.h].bytes = @ + (e.liveb - S.bytes)]
      addmem(st) == IF E.pro THEN [st EXCEPT !.mem = @ \cup posns] ELSE st
      failed ==
        LET st == addmem(C!AfterFailure(k0))
            errs == mem
              \o Chk("fail", e.ret = -1, "a failing call must return -1")
              \o Chk("prefix", e.cap < Enough(e) \/ bad \/ e.oom > 0 \/ (E.pro /\ Len(ts) = 0),
                     "the call failed although the buffer has room for a tile of the worst size")
              \o Chk("fail", e.cap < Enough(e) \/ bad \/ e.oom > 0 \/ (E.pro /\ Len(ts) = 0),
                     "the call failed without reason")
            \* a failed key frame may or may not have restarted the encoder: remember the other possibility
            prev == IF key /\ E.prev = <<>> THEN <<addmem(E.st)>> ELSE E.prev
        IN  [errs |-> errs, S |-> res([S EXCEPT !.enc[e.h].st = st, !.enc[e.h].prev = prev, !.fails = @ + 1])]
      delivered ==
        LET m == TLCEval(ParseMsg(e.out, E.pro, IsAlpha(e)))
            k1 == IF m.ok /\ ~m.hdr /\ ~key /\ E.prev # <<>> /\ E.prev[1].hdr
                  THEN C!CallOf(E.prev[1], k0.req) ELSE k0
            e1 == mem
               \o Chk("fail", ~bad, "a request with an unknown table, an off-grid tile or too many rectangles or tables must fail")
               \o Chk("frame", m.ok, "malformed message: " \o m.why)
               \o Chk("any", m.ok, "malformed message: " \o m.why)
        IN  IF ~m.ok \/ Mine(e1) # <<>> THEN [errs |-> e1, S |-> S]
            ELSE LET e2 == SeqErrs(e, E, k1, m) \o EchoErrs(e, E, m)
                         \o Chk("prefix", (e.cap >= Ample(e) /\ e.oom = 0) => Len(m.offs) - 1 = Mn(Len(ts), MaxTiles),
                                "not all tiles although the buffer has room for the worst case")
                         \o Chk("prefix", (e.cap - e.n >= TileWorst + 64 /\ e.oom = 0) => Len(m.offs) - 1 = Mn(Len(ts), MaxTiles),
                                "not all tiles although the room left over takes any tile")
                         \o Chk("prefix", e.ret = Len(m.offs) - 1, "returned value is not the number of tiles in the message")
                         \o Chk("frame", (IsAlpha(e) /\ ~E.pro /\ HasAlpha(E.fmt)) => \A i \in 1..(Len(m.offs) - 1) : AlphaForm(e.out, m.offs[i]),
                                "malformed message: alpha data neither run-length coded nor raw and padded")
                 IN  IF Mine(e1 \o e2) # <<>> \/ Len(m.offs) - 1 > Len(ts) THEN [errs |-> e1 \o e2, S |-> S]
                     ELSE LET kh == IF m.hdr THEN C!PutHeader(k1) ELSE [k1 EXCEPT !.phase = "begin"]
                              kb == C!PutRegion(C!PutBegin([kh EXCEPT !.st.idx = m.no]), <<>>)
                              kn == IF E.pro /\ NeedsContents THEN ProTiles(e, E, m, kb, S.memo) ELSE <<<<>>, kb, 0, S.memo>>
                              cn == IF E.pro \/ (Owned \cap {"payload", "color", "client", "alpha", "known"} = {}) THEN <<<<>>, S.known>>
                                    ELSE ClassicTiles(e, E, m, S.known)
                              kd == C!PutEnd(C!StopTiles(kn[2]))
                              cli == C!ReceiveAll(E.cli, kd.msg, E.pro)
                              tr == C!Truth(E.truth, kd)
                              e3 == e1 \o e2 \o kn[1] \o cn[1]
                                 \o Chk("seq", C!Followed(cli), "a client cannot follow the stream")
                                 \o Chk("payload", (E.pro /\ NeedsContents) => C!InSync(cli, tr, TRUE),
                                        "the client does not hold the coefficients of the latest images")
                          IN  [errs |-> e3,
                               S |-> res([S EXCEPT !.enc[e.h].st = addmem(C!AfterSuccess(kd)),
                                                   !.enc[e.h].cli = IF Owns("seq") THEN cli ELSE [cli EXCEPT !.broken = FALSE],
                                                   !.enc[e.h].truth = tr, !.enc[e.h].prev = <<>>,
                                                   !.known = cn[2], !.memo = kn[4],
                                                   !.msgs = @ + 1, !.tiles = @ + Len(m.offs) - 1,
                                                   !.diffs = @ + kn[3]])]
      blind == [errs |-> mem, S |-> res([S EXCEPT !.enc[e.h].st = addmem(IF key THEN C!Fresh(TRUE) ELSE @), !.msgs = @ + 1])]
  IN  IF e.fault # 0 THEN [errs |-> mem, S |-> S]
      ELSE IF ~ReadsMessages THEN blind
      ELSE IF e.ret < 0 THEN failed
      ELSE IF e.n < 0 \/ e.n > e.cap \/ Len(e.out) # e.n
           THEN [errs |-> mem \o <<<<"any", "more bytes reported than the buffer holds">>>>, S |-> S]
      ELSE delivered

----------------------------------------------------------------------------
(* Agreement: calls of a group must have given the same result.              *)
(* e.res is a digest (four 16-bit words) or any other value.                 *)
JAgree(e) ==
  [errs |-> IF e.g \in DOMAIN S.grp
            THEN Chk("agree", S.grp[e.g] = e.res, "results differ: " \o e.what)
            ELSE <<>>,
   S |-> IF e.g \in DOMAIN S.grp THEN S ELSE [S EXCEPT !.grp = (e.g :> e.res) @@ @]]

(* A long run of calls on one encoder, of which some are logged by the        *)
(* beginnings of their messages: heads[i] = <<i div 2^16, i mod 2^16, ret, n,  *)
(* first 14 bytes>> for call number i (from 0) of the run                      *)
CtrPlus(c, d) == LET lo == c[2] + d[2] IN <<(c[1] + d[1] + lo \div 65536) % 65536, lo % 65536>>
JBurst(e) ==
  LET E == S.enc[e.h]
      good(i) == LET hd == e.heads[i]
                     b == SubSeq(hd, 5, Len(hd))
                 IN  hd[3] >= 0 /\ FbShape(b, 0, E.pro) /\ FbNo(b, 0, E.pro) = CtrPlus(E.st.idx, <<hd[1], hd[2]>>)
      wrong == {i \in 1..Len(e.heads) : ~good(i)}
      end == CtrPlus(E.st.idx, e.count)
  IN  [errs |-> Chk("any", e.fault = 0, "the call crashed")
             \o Chk("seq", wrong = {}, "in a long run of calls: stream header or frame number wrong, frame "
                                       \o ToString(E.st.idx) \o " + " \o ToString(IF wrong = {} THEN <<>> ELSE SubSeq(e.heads[CHOOSE i \in wrong : \A j \in wrong : i <= j], 1, 2))),
       S |-> [S EXCEPT !.enc[e.h].st.idx = end, !.enc[e.h].cli.next = end, !.msgs = @ + Len(e.heads)]]

(* A message too long to be logged in full: pre is all of it up to the first    *)
(* tile, heads the offset and first bytes of each block that follows (the last  *)
(* is the frame end), tail its last bytes (C01, C02)                            *)
JLong(e) ==
  LET E == S.enc[e.h]
      pro == E.pro
      al == IsAlpha(e)
      b == e.pre
      hdr == TypeIs(b, 0, 204, 192)
      pF == IF hdr THEN HeaderLen(pro) ELSE 0
      pR == pF + FbLen(pro)
      shape == /\ hdr => HeaderShape(b, pro)
               /\ FbShape(b, pF, pro)
               /\ IF pro THEN PrShape(b, pR) ELSE RgShape(b, pR) /\ TsShape(b, pR + RgLen(b, pR), al)
      pT == IF pro THEN pR ELSE pR + RgLen(b, pR)
      k == IF pro THEN PrNumTiles(b, pT) ELSE TsNumTiles(b, pT)
      size == IF pro THEN PrDataSize(b, pT) ELSE TsDataSize(b, pT)
      p0 == IF pro THEN pT + PrHeadLen(b, pT) ELSE pT + TsHeadLen(b, pT)
      n == Len(e.heads) - 1
      at(i) == e.heads[i][1]
      hd(i) == SubSeq(e.heads[i], 2, Len(e.heads[i]))
      tile(i) == LET x == hd(i) IN
        /\ Len(x) = 22
        /\ IF pro THEN TypeIs(x, 0, 204, 197) /\ x[14] \in {0, 1} /\ U16(x, 20) = 0 /\ U32(x, 2) = 22 + SumTo(PtComp(x, 0), 3)
           ELSE TypeIs(x, 0, 202, 195) /\ U32(x, 2) = TlHead(al) + SumTo(TlComp(x, 0, al), IF al THEN 4 ELSE 3)
        /\ at(i + 1) = at(i) + U32(x, 2)
      ts == ReqTiles(e)
      qs == Quants(e)
      why == IF ~shape \/ Len(b) # p0 \/ n < 0 THEN "first blocks of a long message"
             ELSE IF at(1) # p0 \/ \E i \in 1..n : ~tile(i) THEN "a tile block of a long message"
             ELSE IF k # n THEN "number of tiles of a long message"
             ELSE IF at(n + 1) # p0 + size THEN "tile data size of a long message"
             ELSE IF e.n # at(n + 1) + FeLen(pro) \/ ~FeShape(SubSeq(e.tail, Len(e.tail) - FeLen(pro) + 1, Len(e.tail)), 0, pro) THEN "end of a long message"
             ELSE ""
      first == IF e.fault = 0 THEN MemErrs(e) \o ResErrs(e, E) \o Chk("any", e.ret >= 0 => why = "", "malformed message: " \o why) ELSE MemErrs(e)
      echo == Chk("echo", e.ret = n /\ n <= Len(ts), "returned number of tiles is not the number in the message")
           \o Chk("prefix", e.ret = n /\ n <= Len(ts), "returned number of tiles is not the number in the message")
           \o Chk("echo", n <= Len(ts) => \A i \in 1..n : TlX(hd(i), 0) = GridX(ts[i]) /\ TlY(hd(i), 0) = GridY(ts[i]) /\ TlQuants(hd(i), 0) = ts[i].q,
                  "a tile's position or quantisation indices differ from the request")
           \o Chk("prefix", (e.cap - e.n >= TileWorst + 64 /\ e.oom = 0) => n = Mn(Len(ts), MaxTiles),
                  "not all tiles although the room left over takes any tile")
      k0 == C!CallOf(E.st, [key |-> IsKey(e, E), alpha |-> al, tiles |-> <<>>, bad |-> FALSE])
      kh == IF hdr THEN C!PutHeader(k0) ELSE [k0 EXCEPT !.phase = "begin"]
      kd == C!PutEnd(C!StopTiles(C!PutRegion(C!PutBegin(kh), <<>>)))
  IN  IF Mine(first) # <<>> \/ e.fault # 0 \/ e.ret < 0 THEN [errs |-> first, S |-> [S EXCEPT !.live = e.live, !.bytes = e.liveb]]
      ELSE [errs |-> first \o echo
              \o Chk("seq", (hdr <=> k0.phase = "header") /\ FbNo(b, pF, pro) = k0.st.idx, "stream header or frame number wrong"),
            S |-> [S EXCEPT !.enc[e.h].st = C!AfterSuccess(kd), !.enc[e.h].cli = C!ReceiveAll(E.cli, kd.msg, pro), !.live = e.live, !.bytes = e.liveb,
                            !.enc[e.h].own = @ + (e.live - S.live), !.enc[e.h].bytes = @ + (e.liveb - S.bytes),
                            !.msgs = @ + 1, !.tiles = @ + n]]

----------------------------------------------------------------------------
(* Entry points of the entropy coders (C07)                                  *)
JRlgr(e) ==
  LET mode == IF e.which \in {0, 2} THEN 1 ELSE 3
      cf == IF e.which >= 2 THEN DiffTail(e.coefs, e.diff) ELSE e.coefs
      ref == IF e.ref > 0 THEN Trace[e.ref] ELSE e
      errs == Chk("any", e.fault = 0, "the coder crashed: touched memory outside its buffers, or did not end")
           \o Chk("rlgr", e.clean = 1, "bytes outside the output buffer were written")
           \o (IF e.fault # 0 THEN <<>>
               ELSE IF e.ret < 0
               THEN Chk("rlgr", e.ref > 0 /\ e.size < ref.ret + 64, "the coder failed although there is room")
               ELSE Chk("rlgr", e.ret <= e.size /\ Len(e.out) = e.ret, "more bytes reported than the buffer holds")
                 \o (IF e.ref > 0
                     THEN Chk("rlgr", e.out = ref.out, "result depends on buffer size or contents")
                     ELSE LET r == AcceptAt(mode, cf, e.out)
                          IN  Chk("rlgr", r = 0, "not the code of the coefficients, differs at bit " \o ToString(r))
                           \o (IF e.dec = 1
                               THEN LET dd == Decode(mode, e.out, 4096)
                                    IN  Chk("rlgr", dd.coefs = cf /\ ~dd.bad, "a client does not recover the coefficients")
                               ELSE <<>>)))
  IN  [errs |-> errs, S |-> [S EXCEPT !.coefs = @ + 4096]]

(* Entry points of the transforms (C08, C09)                                 *)
JDwt(e) ==
  LET want == CASE e.which \in {0, 1, 2} -> Classic(e.smp, e.q)
                [] e.which = 3 -> Dwt(e.smp)
                [] e.which = 4 -> ClassicQuant(e.cin, e.q)
                [] e.which = 5 -> DiffTail(e.cin, e.n)
                [] OTHER -> <<>>
      name == <<"C transform and quantisation", "SSE2 transform", "SSE4.1 transform", "C transform", "C quantisation", "differencing">>
  IN  [errs |-> Chk("any", e.fault = 0, "a transform crashed")
             \o (IF e.fault # 0 \/ e.ret = -2 THEN <<>>
                 ELSE Chk("dwt", e.out = want, name[e.which + 1] \o " gives other coefficients than prescribed")),
       S |-> [S EXCEPT !.coefs = @ + 4096]]

----------------------------------------------------------------------------
(* Traces are put together from units that have nothing to do with each other *)
JUnit(e) ==
  [errs |-> <<>>,
   S |-> [S0 EXCEPT !.live = e.live, !.bytes = e.liveb, !.live0 = e.live, !.msgs = S.msgs, !.tiles = S.tiles,
                    !.fails = S.fails, !.coefs = S.coefs, !.diffs = S.diffs]]

Judge(e) ==
  CASE e.ev = "encode" -> JEncode(e)
    [] e.ev = "long" -> JLong(e)
    [] e.ev = "create" -> JCreate(e)
    [] e.ev = "destroy" -> JDestroy(e)
    [] e.ev = "agree" -> JAgree(e)
    [] e.ev = "burst" -> JBurst(e)
    [] e.ev = "rlgr" -> JRlgr(e)
    [] e.ev = "unit" -> JUnit(e)
    [] e.ev = "crash" -> [errs |-> Chk("any", FALSE, "the library crashed or did not end: " \o e.what), S |-> S]
    [] e.ev = "dwt" -> JDwt(e)
    [] OTHER -> [errs |-> <<>>, S |-> S]

Init == l = 2 /\ S = S0 /\ rej = FALSE
Next ==
  /\ ~rej /\ l <= Len(Trace)
  /\ \E r \in {Judge(Trace[l])} :          \* a singleton, so that it is evaluated once
       \E my \in {Mine(r.errs)} :
         IF my = <<>>
         THEN /\ S' = r.S /\ l' = l + 1 /\ rej' = FALSE
              /\ (l = Len(Trace) => PrintT(<<"ACCEPTED", Len(Trace), r.S.msgs, r.S.tiles, r.S.diffs, r.S.coefs \div 4096, r.S.fails>>))
         ELSE /\ rej' = TRUE /\ UNCHANGED <<l, S>>
              /\ PrintT(<<"REJECTED", l, my[1][1], my[1][2]>>)
Spec == Init /\ [][Next]_vars
View == <<l, rej>>
=============================================================================
