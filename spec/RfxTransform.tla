---------------------------- MODULE RfxTransform ----------------------------
(* The two wavelet transforms with quantisation, as functions from 64x64    *)
(* samples (0..255, row-major, 4096 long) to 4096 coefficients in coding    *)
(* order, and the client's inverses.                                        *)
EXTENDS RfxBase

(* ---- quantisation table: five bytes, ten nibbles, low nibble first ------ *)
(* LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1                                    *)
Nib(q, i) == IF i % 2 = 0 THEN q[(i \div 2) + 1] % 16 ELSE q[(i \div 2) + 1] \div 16
QLL3(q) == Nib(q, 0)  QLH3(q) == Nib(q, 1)  QHL3(q) == Nib(q, 2)  QHH3(q) == Nib(q, 3)
QLH2(q) == Nib(q, 4)  QHL2(q) == Nib(q, 5)  QHH2(q) == Nib(q, 6)
QLH1(q) == Nib(q, 7)  QHL1(q) == Nib(q, 8)  QHH1(q) == Nib(q, 9)
DefaultQuant == <<102, 102, 119, 136, 152>>   \* 66 66 77 88 98

(* value v of a band with table entry n: divided by 2^(n-1), rounding halves up *)
Quant(v, n) == (v + Pow2(n - 2)) \div Pow2(n - 1)
QuantSeq(s, n) == [i \in 1..Len(s) |-> Quant(s[i], n)]

(* samples are centred and scaled by 32 *)
Centre(s) == [i \in 1..Len(s) |-> (s[i] - 128) * 32]

(* the two lifting steps; a b c are x[2n] x[2n+1] x[2n+2] *)
HiOf(a, b, c) == (b - ((a + c) \div 2)) \div 2
LoOf(a, h0, h1) == a + ((h0 + h1) \div 2)

----------------------------------------------------------------------------
(* Classic transform, one level on an N x N plane x: columns, then rows.    *)
(* Beyond the edge the signal is mirrored: x[N] = x[N-2], H[-1] = H[0].      *)
ColHi(x, N) == TLCEval([i \in 1..((N * N) \div 2) |->
    LET r == (i - 1) \div N  c == (i - 1) % N
        r2 == IF 2 * r + 2 = N THEN N - 2 ELSE 2 * r + 2
    IN  HiOf(x[2 * r * N + c + 1], x[(2 * r + 1) * N + c + 1], x[r2 * N + c + 1])])
ColLo(x, h, N) == TLCEval([i \in 1..((N * N) \div 2) |->
    LET r == (i - 1) \div N  c == (i - 1) % N
    IN  LoOf(x[2 * r * N + c + 1], h[IF r = 0 THEN i ELSE i - N], h[i])])
RowHi(x, N) == LET M == N \div 2 IN TLCEval([i \in 1..(M * M) |->
    LET r == (i - 1) \div M  n == (i - 1) % M
        n2 == IF 2 * n + 2 = N THEN N - 2 ELSE 2 * n + 2
    IN  HiOf(x[r * N + 2 * n + 1], x[r * N + 2 * n + 2], x[r * N + n2 + 1])])
RowLo(x, h, N) == LET M == N \div 2 IN TLCEval([i \in 1..(M * M) |->
    LET r == (i - 1) \div M  n == (i - 1) % M
    IN  LoOf(x[r * N + 2 * n + 1], h[IF n = 0 THEN i ELSE i - 1], h[i])])

Level(x, N) ==
  LET vh == ColHi(x, N)
      vl == ColLo(x, vh, N)
      hl == RowHi(vl, N)
      hh == RowHi(vh, N)
  IN  [hl |-> hl, lh |-> RowLo(vh, hh, N), hh |-> hh, ll |-> RowLo(vl, hl, N)]

(* transform without quantisation: 4096 coefficients in coding order *)
Dwt(samples) ==
  LET l1 == Level(TLCEval(Centre(samples)), 64)
      l2 == Level(l1.ll, 32)
      l3 == Level(l2.ll, 16)
  IN  TLCEval(l1.hl \o l1.lh \o l1.hh \o l2.hl \o l2.lh \o l2.hh \o l3.hl \o l3.lh \o l3.hh \o l3.ll)

ClassicQuant(c, q) ==
  LET band(lo, n, k) == [i \in 1..n |-> Quant(c[lo + i], k)]
  IN  TLCEval(band(0, 1024, QHL1(q)) \o band(1024, 1024, QLH1(q)) \o band(2048, 1024, QHH1(q))
      \o band(3072, 256, QHL2(q)) \o band(3328, 256, QLH2(q)) \o band(3584, 256, QHH2(q))
      \o band(3840, 64, QHL3(q)) \o band(3904, 64, QLH3(q)) \o band(3968, 64, QHH3(q))
      \o band(4032, 64, QLL3(q)))

Classic(samples, q) == ClassicQuant(Dwt(samples), q)

(* the last n coefficients replaced by differences (16-bit) *)
DiffTail(c, n) == TLCEval([i \in 1..Len(c) |->
    IF i <= Len(c) - n + 1 THEN c[i] ELSE Wrap16(c[i] - c[i - 1])])

----------------------------------------------------------------------------
(* Reduce-extrapolate transform ([MS-RDPEGFX] 3.2.8.1): 64 -> 33 low and 31 *)
(* high, 33 -> 17/16, 17 -> 9/8.  At the first level x[64] is extrapolated   *)
(* as 2 x[63] - x[62], which makes H[31] zero; the other two levels mirror.  *)
(* Arithmetic is 16-bit throughout.                                         *)
XLoLen(N) == IF N = 64 THEN 33 ELSE (N + 1) \div 2
XHiLen(N) == IF N = 64 THEN 31 ELSE N \div 2

(* one-dimensional step at position n of a signal read through x(_); the    *)
(* low-pass value is kept exact here and wrapped where it is stored          *)
XHi(x(_), n) == Wrap16(HiOf(x(2 * n), x(2 * n + 1), x(2 * n + 2)))
XLo(x(_), h(_), n, N) ==
  IF n = 0 THEN x(0) + h(0)
  ELSE IF N = 64 /\ n = 31 THEN x(62) + (h(30) \div 2)
  ELSE IF N = 64 /\ n = 32
       THEN LET e == Wrap16(2 * x(63) - x(62))
                g == Wrap16(HiOf(e, x(63), x(62)))
            IN  e + (g \div 2)
  ELSE IF n = XHiLen(N) THEN x(N - 1) + h(n - 1)
  ELSE LoOf(x(2 * n), h(n - 1), h(n))

(* x has R rows of N columns *)
XRowHi(x, R, N) == LET W == XHiLen(N) IN TLCEval([i \in 1..(R * W) |->
    LET r == (i - 1) \div W  n == (i - 1) % W
        s(j) == x[r * N + j + 1]
    IN  XHi(s, n)])
XRowLo(x, h, R, N) == LET W == XLoLen(N)  V == XHiLen(N) IN TLCEval([i \in 1..(R * W) |->
    LET r == (i - 1) \div W  n == (i - 1) % W
        s(j) == x[r * N + j + 1]
        g(j) == h[r * V + j + 1]
    IN  XLo(s, g, n, N)])
(* x has N rows of C columns *)
XColHi(x, C, N) == TLCEval([i \in 1..(XHiLen(N) * C) |->
    LET n == (i - 1) \div C  c == (i - 1) % C
        s(j) == x[j * C + c + 1]
    IN  XHi(s, n)])
XColLo(x, h, C, N) == TLCEval([i \in 1..(XLoLen(N) * C) |->
    LET n == (i - 1) \div C  c == (i - 1) % C
        s(j) == x[j * C + c + 1]
        g(j) == h[j * C + c + 1]
    IN  Wrap16(XLo(s, g, n, N))])

XLevel(x, N) ==
  LET vh == XColHi(x, N, N)
      vl == XColLo(x, vh, N, N)
      hl == XRowHi(vl, XLoLen(N), N)
      hh == XRowHi(vh, XHiLen(N), N)
  IN  [hl |-> hl, lh |-> XRowLo(vh, hh, XHiLen(N), N), hh |-> hh, ll |-> XRowLo(vl, hl, XLoLen(N), N)]

(* transform without quantisation, in coding order *)
ExtrapRaw(samples) ==
  LET l1 == XLevel(TLCEval(Centre(samples)), 64)
      l2 == XLevel(TLCEval(Wrap16Seq(l1.ll)), 33)
      l3 == XLevel(TLCEval(Wrap16Seq(l2.ll)), 17)
  IN  TLCEval(l1.hl \o l1.lh \o l1.hh \o l2.hl \o l2.lh \o l2.hh \o l3.hl \o l3.lh \o l3.hh \o l3.ll)

ExtrapQuant(c, q) ==
  LET band(lo, n, k) == [i \in 1..n |-> Quant(c[lo + i], k)]
  IN  TLCEval(band(0, 1023, QHL1(q)) \o band(1023, 1023, QLH1(q)) \o band(2046, 961, QHH1(q))
      \o band(3007, 272, QHL2(q)) \o band(3279, 272, QLH2(q)) \o band(3551, 256, QHH2(q))
      \o band(3807, 72, QHL3(q)) \o band(3879, 72, QLH3(q)) \o band(3951, 64, QHH3(q))
      \o band(4015, 81, QLL3(q)))

(* The first level extrapolates in both directions: at the corner (32, 32) of  *)
(* its low band up to nine times a sample, which need not fit 16 bits.         *)
CornerExact(samples) ==
  LET s(x, y) == (samples[64 * y + x + 1] - 128) * 32
      e(a, b) == LET e0 == 2 * b - a  g == HiOf(e0, b, a) IN e0 + (g \div 2)
      col(x) == e(s(x, 62), s(x, 63))
  IN  e(col(62), col(63))
CornerFits(samples) == CornerExact(samples) \in -32768..32767

Extrap(samples, q) == ExtrapQuant(ExtrapRaw(samples), q)
=============================================================================
