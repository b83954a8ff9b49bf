------------------------------ MODULE RfxWire ------------------------------
(* Block layouts of the RemoteFX and RemoteFX Progressive streams.           *)
(* b: message bytes, p: zero-based offset.  Every predicate is total: it is  *)
(* FALSE, not an error, on bytes that are too short.                        *)
EXTENDS RfxBase, SequencesExt

(* block types, low byte first: 0xCCC0 etc. *)
TypeIs(b, p, hi, lo) == Fits(b, p, 2) /\ b[p + 1] = lo /\ b[p + 2] = hi
Bytes(b, p, s) == Fits(b, p, Len(s)) /\ \A i \in 1..Len(s) : b[p + i] = s[i]
Le16(v) == <<v % 256, (v \div 256) % 256>>
Le32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
(* a 32-bit counter kept as <<high 16, low 16>> *)
LeCtr(c) == Le16(c[2]) \o Le16(c[1])
CtrAt(b, p) == <<U16(b, p + 2), U16(b, p)>>
CtrInc(c) == IF c[2] = 65535 THEN <<(c[1] + 1) % 65536, 0>> ELSE <<c[1], c[2] + 1>>

SyncBlock == <<192, 204, 12, 0, 0, 0, 202, 172, 204, 202, 0, 1>>
(* classic: context, codec versions, channels *)
CtxProps(mode) == 8 + 32 + (IF mode = 1 THEN 1 ELSE 4) * 512 + 8192
TilesetProps(mode) == 1 + 16 + 64 + (IF mode = 1 THEN 1 ELSE 4) * 1024 + 16384
IsSync(b, p) == Bytes(b, p, SyncBlock)
CtxHead == <<195, 204, 13, 0, 0, 0, 1, 255, 0, 64, 0>>
VersBlock == <<193, 204, 10, 0, 0, 0, 1, 1, 0, 1>>
ChanHead == <<194, 204, 12, 0, 0, 0, 1, 0>>
ClassicHeaderLen == 47
ClassicHeaderShape(b) ==
  /\ IsSync(b, 0)
  /\ Bytes(b, 12, CtxHead) /\ Fits(b, 23, 2)
  /\ Bytes(b, 25, VersBlock)
  /\ Bytes(b, 35, ChanHead) /\ Fits(b, 43, 4)
HdrProps(b) == U16(b, 23)
HdrWidth(b) == U16(b, 43)
HdrHeight(b) == U16(b, 45)

ProContext == <<195, 204, 10, 0, 0, 0, 0, 64, 0, 1>>
ProHeaderLen == 22
ProHeaderShape(b) == IsSync(b, 0) /\ Bytes(b, 12, ProContext)

HeaderLen(pro) == IF pro THEN ProHeaderLen ELSE ClassicHeaderLen
HeaderShape(b, pro) == IF pro THEN ProHeaderShape(b) ELSE ClassicHeaderShape(b)

(* frame begin: number at FbNo *)
FbLen(pro) == IF pro THEN 12 ELSE 14
FbShape(b, p, pro) ==
  IF pro THEN /\ Bytes(b, p, <<193, 204, 12, 0, 0, 0>>)
              /\ Fits(b, p, 12) /\ U16(b, p + 10) = 1
  ELSE /\ Bytes(b, p, <<196, 204, 14, 0, 0, 0, 1, 0>>)
       /\ Fits(b, p, 14) /\ U16(b, p + 12) = 1
FbNo(b, p, pro) == CtrAt(b, IF pro THEN p + 6 ELSE p + 8)

FeLen(pro) == IF pro THEN 6 ELSE 8
FeShape(b, p, pro) ==
  IF pro THEN Bytes(b, p, <<194, 204, 6, 0, 0, 0>>)
  ELSE Bytes(b, p, <<197, 204, 8, 0, 0, 0, 1, 0>>)

(* classic region *)
RgShape(b, p) ==
  /\ TypeIs(b, p, 204, 198) /\ Fits(b, p, 15)
  /\ Bytes(b, p + 6, <<1, 0, 1>>)
  /\ LET n == U16(b, p + 9)
     IN  /\ U32(b, p + 2) = 15 + 8 * n
         /\ Fits(b, p, 15 + 8 * n)
         /\ Bytes(b, p + 11 + 8 * n, <<193, 202, 1, 0>>)
RgCount(b, p) == U16(b, p + 9)
RgLen(b, p) == 15 + 8 * RgCount(b, p)
RectsAt(b, p, n) == [i \in 1..n |-> <<U16(b, p + 8 * (i - 1)), U16(b, p + 8 * (i - 1) + 2),
                                     U16(b, p + 8 * (i - 1) + 4), U16(b, p + 8 * (i - 1) + 6)>>]
QuantsAt(b, p, n) == [i \in 1..n |-> [j \in 1..5 |-> b[p + 5 * (i - 1) + j]]]

(* classic tileset *)
TsShape(b, p, alpha) ==
  /\ IF alpha THEN TypeIs(b, p, 221, 215) ELSE TypeIs(b, p, 204, 199)
  /\ Fits(b, p, 22)
  /\ Bytes(b, p + 6, <<1, 0, 194, 202, 0, 0>>)
  /\ b[p + 16] = 64
  /\ Fits(b, p, 22 + 5 * b[p + 15])
  /\ U32(b, p + 2) = 22 + 5 * b[p + 15] + U32(b, p + 18)
  /\ U32(b, p + 18) >= 0
TsProps(b, p) == U16(b, p + 12)
TsNumQuants(b, p) == b[p + 15]
TsNumTiles(b, p) == U16(b, p + 16)
TsDataSize(b, p) == U32(b, p + 18)
TsHeadLen(b, p) == 22 + 5 * b[p + 15]

(* classic tile: component lengths <<Y, Cb, Cr [, A]>> *)
TlHead(alpha) == IF alpha THEN 21 ELSE 19
TlComp(b, p, alpha) ==
  IF alpha THEN <<U16(b, p + 13), U16(b, p + 15), U16(b, p + 17), U16(b, p + 19)>>
  ELSE <<U16(b, p + 13), U16(b, p + 15), U16(b, p + 17)>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
TlShape(b, p, alpha) ==
  /\ TypeIs(b, p, 202, 195) /\ Fits(b, p, TlHead(alpha))
  /\ LET c == TlComp(b, p, alpha)
     IN  /\ U32(b, p + 2) = TlHead(alpha) + SumTo(c, Len(c))
         /\ Fits(b, p, U32(b, p + 2))
TlLen(b, p) == U32(b, p + 2)
TlQuants(b, p) == <<b[p + 7], b[p + 8], b[p + 9]>>
TlX(b, p) == U16(b, p + 9)
TlY(b, p) == U16(b, p + 11)

(* progressive region *)
PrShape(b, p) ==
  /\ TypeIs(b, p, 204, 196) /\ Fits(b, p, 18)
  /\ b[p + 7] = 64 /\ b[p + 11] = 0 /\ b[p + 12] = 1
  /\ LET h == 18 + 8 * U16(b, p + 7) + 5 * b[p + 10]
     IN  /\ Fits(b, p, h)
         /\ U32(b, p + 14) >= 0
         /\ U32(b, p + 2) = h + U32(b, p + 14)
PrNumRects(b, p) == U16(b, p + 7)
PrNumQuants(b, p) == b[p + 10]
PrNumTiles(b, p) == U16(b, p + 12)
PrDataSize(b, p) == U32(b, p + 14)
PrHeadLen(b, p) == 18 + 8 * PrNumRects(b, p) + 5 * PrNumQuants(b, p)

(* progressive simple tile *)
PtComp(b, p) == <<U16(b, p + 14), U16(b, p + 16), U16(b, p + 18)>>
PtShape(b, p) ==
  /\ TypeIs(b, p, 204, 197) /\ Fits(b, p, 22)
  /\ b[p + 14] \in {0, 1}
  /\ U16(b, p + 20) = 0
  /\ LET c == PtComp(b, p)
     IN  /\ U32(b, p + 2) = 22 + SumTo(c, 3)
         /\ Fits(b, p, U32(b, p + 2))
PtFlag(b, p) == b[p + 14]

----------------------------------------------------------------------------
(* Parsing a message: [ok, why, hdr, no, regs, quants, props, offs]          *)
Bad(why) == [ok |-> FALSE, why |-> why]

(* offsets of k tiles from p on, followed by the offset after the last; <<>> *)
(* when they are not well formed                                             *)
Offsets(b, p0, k, pro, alpha) ==
  FoldLeft(LAMBDA acc, i :
             IF acc = <<>> THEN acc
             ELSE LET p == acc[Len(acc)]
                  IN  IF IF pro THEN PtShape(b, p) ELSE TlShape(b, p, alpha)
                      THEN Append(acc, p + TlLen(b, p)) ELSE <<>>,
           <<p0>>, [i \in 1..k |-> i])

ParseMsg(b, pro, alpha) ==
  LET hdr == TypeIs(b, 0, 204, 192)
      pF == IF hdr THEN HeaderLen(pro) ELSE 0
      pR == pF + FbLen(pro)
  IN  IF hdr /\ ~HeaderShape(b, pro) THEN Bad("stream header")
      ELSE IF ~FbShape(b, pF, pro) THEN Bad("frame begin block")
      ELSE IF pro
      THEN IF ~PrShape(b, pR) THEN Bad("progressive region block")
           ELSE LET p0 == pR + PrHeadLen(b, pR)
                    offs == Offsets(b, p0, PrNumTiles(b, pR), TRUE, FALSE)
                    pE == p0 + PrDataSize(b, pR)
                IN  IF offs = <<>> THEN Bad("a progressive tile block")
                    ELSE IF offs[Len(offs)] # pE THEN Bad("tile data size")
                    ELSE IF ~FeShape(b, pE, TRUE) THEN Bad("frame end block")
                    ELSE IF pE + 6 # Len(b) THEN Bad("message length")
                    ELSE [ok |-> TRUE, why |-> "", hdr |-> hdr, no |-> FbNo(b, pF, TRUE),
                          regs |-> RectsAt(b, pR + 18, PrNumRects(b, pR)),
                          quants |-> QuantsAt(b, pR + 18 + 8 * PrNumRects(b, pR), PrNumQuants(b, pR)),
                          props |-> 0, offs |-> offs]
      ELSE IF ~RgShape(b, pR) THEN Bad("region block")
           ELSE LET pT == pR + RgLen(b, pR)
                IN  IF ~TsShape(b, pT, alpha) THEN Bad("tileset block")
                    ELSE LET p0 == pT + TsHeadLen(b, pT)
                             offs == Offsets(b, p0, TsNumTiles(b, pT), FALSE, alpha)
                             pE == p0 + TsDataSize(b, pT)
                         IN  IF offs = <<>> THEN Bad("a tile block")
                             ELSE IF offs[Len(offs)] # pE THEN Bad("tiles data size")
                             ELSE IF ~FeShape(b, pE, FALSE) THEN Bad("frame end block")
                             ELSE IF pE + 8 # Len(b) THEN Bad("message length")
                             ELSE [ok |-> TRUE, why |-> "", hdr |-> hdr, no |-> FbNo(b, pF, FALSE),
                                   regs |-> RectsAt(b, pR + 11, RgCount(b, pR)),
                                   quants |-> QuantsAt(b, pT + 22, TsNumQuants(b, pT)),
                                   props |-> TsProps(b, pT), offs |-> offs]
=============================================================================
