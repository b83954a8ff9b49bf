----------------------------- MODULE RfxCompose -----------------------------
(* Writing a message byte by byte the way an encoder does: blocks are        *)
(* appended, and the lengths and counts known only at the end are filled in  *)
(* afterwards.  A state machine; RfxWire's reader is checked against it.      *)
EXTENDS RfxWire

CONSTANTS
  Pro, Alpha,      \* kind of message
  Rects, Tables,   \* rectangles and tables to choose from
  Places,          \* tile positions <<column, row>>
  CompLens,        \* lengths a component can have
  Most,            \* most rectangles, tables and tiles
  Numbers,         \* frame numbers
  Mistake          \* mistakes switched on ({} normally)

VARIABLES
  at,              \* next thing to write
  b,               \* bytes so far
  want,            \* what a reader must find
  mark             \* offset of the block whose lengths are still open
vars == <<at, b, want, mark>>

Pat(s, p, v) == [i \in 1..Len(s) |-> IF i > p /\ i <= p + Len(v) THEN v[i - p] ELSE s[i]]
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
RectBytes(r) == Le16(r[1]) \o Le16(r[2]) \o Le16(r[3]) \o Le16(r[4])
UpTo2(S) == UNION {[1..n -> S] : n \in 0..Most}
NC == IF Alpha THEN 4 ELSE 3

Init == /\ at = "start" /\ b = <<>> /\ mark = 0
        /\ want = [hdr |-> FALSE, no |-> <<0, 0>>, regs |-> <<>>, quants |-> <<>>, tiles |-> <<>>]

PutHead == /\ at = "start"
        /\ b' = (IF Pro THEN SyncBlock \o ProContext
                 ELSE SyncBlock \o CtxHead \o Le16(CtxProps(1)) \o VersBlock \o ChanHead \o Le16(640) \o Le16(480))
        /\ want' = [want EXCEPT !.hdr = TRUE]
        /\ at' = "begin" /\ UNCHANGED mark
NoHead == at = "start" /\ at' = "begin" /\ UNCHANGED <<b, want, mark>>
Begin(n) == /\ at = "begin"
            /\ b' = b \o (IF Pro THEN <<193, 204, 12, 0, 0, 0>> ELSE <<196, 204, 14, 0, 0, 0, 1, 0>>) \o LeCtr(n) \o Le16(1)
            /\ want' = [want EXCEPT !.no = n] /\ at' = "region" /\ UNCHANGED mark
Region(rs) ==
  /\ at = "region" /\ ~Pro
  /\ b' = b \o <<198, 204>> \o Le32(15 + 8 * Len(rs)) \o <<1, 0, 1>> \o Le16(Len(rs))
            \o Flat([i \in 1..Len(rs) |-> RectBytes(rs[i])]) \o <<193, 202, 1, 0>>
  /\ want' = [want EXCEPT !.regs = rs] /\ at' = "tileset" /\ UNCHANGED mark
Tileset(qs) ==
  /\ at = "tileset"
  /\ mark' = Len(b)
  /\ b' = b \o (IF Alpha THEN <<215, 221>> ELSE <<199, 204>>) \o Zeros(4) \o <<1, 0, 194, 202, 0, 0>> \o Le16(TilesetProps(1))
            \o <<Len(qs), 64>> \o Zeros(2) \o Zeros(4) \o Flat(qs)
  /\ want' = [want EXCEPT !.quants = qs] /\ at' = "tiles"
ProRegion(rs, qs) ==
  /\ at = "region" /\ Pro
  /\ mark' = Len(b)
  /\ b' = b \o <<196, 204>> \o Zeros(4) \o <<64>> \o Le16(Len(rs)) \o <<Len(qs), 0, 1>> \o Zeros(2) \o Zeros(4)
            \o Flat([i \in 1..Len(rs) |-> RectBytes(rs[i])]) \o Flat(qs)
  /\ want' = [want EXCEPT !.regs = rs, !.quants = qs] /\ at' = "tiles"
(* a tile: header with the lengths open, components, lengths filled in *)
Tile(pl, q, ls, flag) ==
  /\ at = "tiles" /\ Len(want.tiles) < Most
  /\ LET hd == IF Pro THEN <<197, 204>> \o Zeros(4) \o q \o Le16(pl[1]) \o Le16(pl[2]) \o <<flag>> \o Zeros(8)
               ELSE <<195, 202>> \o Zeros(4) \o q \o Le16(pl[1]) \o Le16(pl[2]) \o Zeros(2 * NC)
         body == Flat([j \in 1..Len(ls) |-> [i \in 1..ls[j] |-> (16 * j + i) % 256]])
         t == hd \o body
         lens == Flat([j \in 1..Len(ls) |-> Le16(ls[j])])
         t2 == Pat(Pat(t, 2, Le32(Len(t) - (IF "tile_short" \in Mistake THEN 1 ELSE 0))), IF Pro THEN 14 ELSE 13, lens)
     IN  b' = b \o t2
  /\ want' = [want EXCEPT !.tiles = Append(@, [pl |-> pl, q |-> q, ls |-> ls, flag |-> flag])]
  /\ UNCHANGED <<at, mark>>
Close ==
  /\ at = "tiles" /\ at' = "end"
  /\ LET hl == IF Pro THEN 18 + 8 * Len(want.regs) + 5 * Len(want.quants) ELSE 22 + 5 * Len(want.quants)
         n == Len(want.tiles) + (IF "count_off" \in Mistake THEN 1 ELSE 0)
         size == Len(b) - mark
         data == size - hl + (IF "size_off" \in Mistake THEN 2 ELSE 0)
     IN  b' = IF Pro THEN Pat(Pat(b, mark + 2, Le32(size)), mark + 12, Le16(n) \o Le32(data))
              ELSE Pat(Pat(b, mark + 2, Le32(size)), mark + 16, Le16(n) \o Le32(data))
  /\ UNCHANGED <<want, mark>>
End == /\ at = "end" /\ at' = "done"
       /\ b' = b \o (IF Pro THEN <<194, 204, 6, 0, 0, 0>> ELSE <<197, 204, 8, 0, 0, 0, 1, 0>>)
       /\ UNCHANGED <<want, mark>>
QIdx == {<<0, 0, 0>>, <<1, 0, 2>>}
Next == \/ PutHead \/ NoHead \/ (\E n \in Numbers : Begin(n))
        \/ (\E rs \in UpTo2(Rects) : Region(rs))
        \/ (\E qs \in UpTo2(Tables) : Tileset(qs))
        \/ (\E rs \in UpTo2(Rects), qs \in UpTo2(Tables) : ProRegion(rs, qs))
        \/ (\E pl \in Places, q \in QIdx, ls \in [1..NC -> CompLens], f \in (IF Pro THEN {0, 1} ELSE {0}) : Tile(pl, q, ls, f))
        \/ Close \/ End
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Found(m, s) ==
  [hdr |-> m.hdr, no |-> m.no, regs |-> m.regs, quants |-> m.quants,
   tiles |-> [i \in 1..(Len(m.offs) - 1) |->
                LET p == m.offs[i]
                IN  [pl |-> <<TlX(s, p), TlY(s, p)>>, q |-> TlQuants(s, p),
                     ls |-> IF Pro THEN PtComp(s, p) ELSE TlComp(s, p, Alpha), flag |-> IF Pro THEN PtFlag(s, p) ELSE 0]]]
(* C01, C02: a complete message is read back as what was written *)
ReadBack == at = "done" => LET m == ParseMsg(b, Pro, Alpha) IN m.ok /\ Found(m, b) = want
(* anything shorter or longer is refused *)
Cut(n) == SubSeq(b, 1, n)
OnlyWhole == at = "done" => /\ \A n \in 0..(Len(b) - 1) : ~ParseMsg(Cut(n), Pro, Alpha).ok
                            /\ ~ParseMsg(b \o <<0>>, Pro, Alpha).ok
(* a byte outside tile data and stated values cannot change unnoticed: what is  *)
(* read differs, or the message is refused, or the byte is one of the free ones *)
Free == LET p0 == IF want.hdr THEN HeaderLen(Pro) ELSE 0
            m == ParseMsg(b, Pro, Alpha)
            hd == IF ~Pro /\ want.hdr THEN {24, 25} \cup 44..47 ELSE {}      \* properties, width, height
            pr == IF Pro THEN {} ELSE {mark + 13, mark + 14}                 \* properties
            body == UNION {(m.offs[i] + (IF Pro THEN 22 ELSE TlHead(Alpha)) + 1)..m.offs[i + 1] : i \in 1..(Len(m.offs) - 1)}
        IN  hd \cup pr \cup body
Noticed == at = "done" =>
  \A i \in (1..Len(b)) \ Free : \A v \in {(b[i] + 1) % 256, (b[i] + 128) % 256, (b[i] + 255) % 256} :
    LET s == [b EXCEPT ![i] = v]
        m == ParseMsg(s, Pro, Alpha)
    IN  ~m.ok \/ Found(m, s) # want
=============================================================================
