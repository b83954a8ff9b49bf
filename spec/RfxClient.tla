------------------------------ MODULE RfxClient ------------------------------
(* What a client does with the coefficients of a component, and how far its   *)
(* picture may be from the original.                                         *)
EXTENDS RfxBase, RfxRlgr, RfxTransform

(* undo the differencing of the last n coefficients *)
UnDiffTail(c, n) ==
  LET k == Len(c) - n + 1
      tail == FoldLeft(LAMBDA a, v : Append(a, Wrap16(a[Len(a)] + v)), <<c[k]>>, SubSeq(c, k + 1, Len(c)))
  IN  TLCEval(SubSeq(c, 1, k - 1) \o tail)

(* value n of a band with table entry q stands for n * 2^(q-1) *)
Band(c, lo, n, q) == TLCEval([i \in 1..n |-> c[lo + i] * Pow2(q - 1)])

----------------------------------------------------------------------------
(* Inverse of one classic level: bands of (N/2) x (N/2) to N x N             *)
(* rows first, then columns; H[-1] = H[0], x[N] = x[N-2]                      *)
IEven(L, h0, h1) == L - ((h0 + h1) \div 2)
IOdd(e0, h, e1) == 2 * h + ((e0 + e1) \div 2)

IRows(lo, hi, R, M) ==        \* R rows of M low and M high values -> R x 2M
  LET ev == TLCEval([i \in 1..(R * M) |-> LET n == (i - 1) % M IN IEven(lo[i], hi[IF n = 0 THEN i ELSE i - 1], hi[i])])
  IN  TLCEval([i \in 1..(R * 2 * M) |->
        LET r == (i - 1) \div (2 * M)  x == (i - 1) % (2 * M)  n == x \div 2  j == r * M + n + 1
        IN  IF x % 2 = 0 THEN ev[j] ELSE IOdd(ev[j], hi[j], IF n = M - 1 THEN ev[j] ELSE ev[j + 1])])
ICols(lo, hi, C, M) ==        \* M rows low, M rows high of C columns -> 2M x C
  LET ev == TLCEval([i \in 1..(M * C) |-> IEven(lo[i], hi[IF i <= C THEN i ELSE i - C], hi[i])])
  IN  TLCEval([i \in 1..(2 * M * C) |->
        LET y == (i - 1) \div C  c == (i - 1) % C  n == y \div 2  j == n * C + c + 1
        IN  IF y % 2 = 0 THEN ev[j] ELSE IOdd(ev[j], hi[j], IF n = M - 1 THEN ev[j] ELSE ev[j + C])])
ILevel(ll, hl, lh, hh, N) ==
  LET M == N \div 2
  IN  ICols(IRows(ll, hl, M, M), IRows(lh, hh, M, M), N, M)

InverseClassic(c, q) ==
  LET l3 == ILevel(Band(c, 4032, 64, QLL3(q)), Band(c, 3840, 64, QHL3(q)), Band(c, 3904, 64, QLH3(q)), Band(c, 3968, 64, QHH3(q)), 16)
      l2 == ILevel(l3, Band(c, 3072, 256, QHL2(q)), Band(c, 3328, 256, QLH2(q)), Band(c, 3584, 256, QHH2(q)), 32)
  IN  ILevel(l2, Band(c, 0, 1024, QHL1(q)), Band(c, 1024, 1024, QLH1(q)), Band(c, 2048, 1024, QHH1(q)), 64)

----------------------------------------------------------------------------
(* Inverse of one reduce-extrapolate level: XLoLen(N) low and XHiLen(N) high  *)
(* values to N.  Even value n of a line from its low value and its two        *)
(* neighbouring high values; at the ends the missing neighbour is mirrored,   *)
(* at the first level it is zero and the last low value stands for itself.    *)
XEven(lo, hm, hp, n, N) ==
  IF n = 0 THEN lo - hp
  ELSE IF N = 64 /\ n = 31 THEN lo - (hm \div 2)
  ELSE IF N = 64 /\ n = 32 THEN lo
  ELSE IF n = XHiLen(N) THEN lo - hm
  ELSE lo - ((hm + hp) \div 2)
XIRows(lo, hi, R, N) ==
  LET W == XLoLen(N) V == XHiLen(N)
      ev == TLCEval([i \in 1..(R * W) |->
              LET r == (i - 1) \div W  n == (i - 1) % W  j == r * V + n
              IN  XEven(lo[i], IF n > 0 /\ n - 1 < V THEN hi[j] ELSE 0, IF n < V THEN hi[j + 1] ELSE 0, n, N)])
  IN  TLCEval([i \in 1..(R * N) |->
        LET r == (i - 1) \div N  x == (i - 1) % N  n == x \div 2  j == r * W + n + 1
        IN  IF x % 2 = 0 THEN ev[j]
            ELSE (IF n < V THEN 2 * hi[r * V + n + 1] ELSE 0) + ((ev[j] + ev[IF n + 1 < W THEN j + 1 ELSE j]) \div 2)])
XICols(lo, hi, Cc, N) ==
  LET W == XLoLen(N) V == XHiLen(N)
      ev == TLCEval([i \in 1..(W * Cc) |->
              LET n == (i - 1) \div Cc
              IN  XEven(lo[i], IF n > 0 /\ n - 1 < V THEN hi[i - Cc] ELSE 0, IF n < V THEN hi[i] ELSE 0, n, N)])
  IN  TLCEval([i \in 1..(N * Cc) |->
        LET x == (i - 1) \div Cc  n == x \div 2  j == n * Cc + ((i - 1) % Cc) + 1
        IN  IF x % 2 = 0 THEN ev[j]
            ELSE (IF n < V THEN 2 * hi[j] ELSE 0) + ((ev[j] + ev[IF n + 1 < W THEN j + Cc ELSE j]) \div 2)])
XILevel(ll, hl, lh, hh, N) == XICols(XIRows(ll, hl, XLoLen(N), N), XIRows(lh, hh, XHiLen(N), N), N, N)

InverseExtrap(c, q) ==
  LET l3 == XILevel(Band(c, 4015, 81, QLL3(q)), Band(c, 3807, 72, QHL3(q)), Band(c, 3879, 72, QLH3(q)), Band(c, 3951, 64, QHH3(q)), 17)
      l2 == XILevel(l3, Band(c, 3007, 272, QHL2(q)), Band(c, 3279, 272, QLH2(q)), Band(c, 3551, 256, QHH2(q)), 33)
  IN  XILevel(l2, Band(c, 0, 1023, QHL1(q)), Band(c, 1023, 1023, QLH1(q)), Band(c, 2046, 961, QHH1(q)), 64)

----------------------------------------------------------------------------
(* The error quantisation can cause, in 1/32 of a level: a low-pass error     *)
(* comes out as it is, a high-pass error at most three times, per direction.  *)
(* The first form is what the table allows; the second, never larger, what    *)
(* it allows for the bands of this very picture.                              *)
MaxOf(n, f(_)) == FoldLeft(LAMBDA a, i : Mx(a, f(i)), 0, [i \in 1..n |-> i])
ResidualOf(v, q) == Abs(v - Pow2(q - 1) * Quant(v, q))
BandLoss(c, lo, n, q) == LET f(i) == ResidualOf(c[lo + i], q) IN MaxOf(n, f)
ClassicLoss(d, q) ==
  BandLoss(d, 4032, 64, QLL3(q))
  + 3 * (BandLoss(d, 3840, 64, QHL3(q)) + BandLoss(d, 3904, 64, QLH3(q)) + 3 * BandLoss(d, 3968, 64, QHH3(q)))
  + 3 * (BandLoss(d, 3072, 256, QHL2(q)) + BandLoss(d, 3328, 256, QLH2(q)) + 3 * BandLoss(d, 3584, 256, QHH2(q)))
  + 3 * (BandLoss(d, 0, 1024, QHL1(q)) + BandLoss(d, 1024, 1024, QLH1(q)) + 3 * BandLoss(d, 2048, 1024, QHH1(q)))
ExtrapLoss(d, q) ==
  BandLoss(d, 4015, 81, QLL3(q))
  + 3 * (BandLoss(d, 3807, 72, QHL3(q)) + BandLoss(d, 3879, 72, QLH3(q)) + 3 * BandLoss(d, 3951, 64, QHH3(q)))
  + 3 * (BandLoss(d, 3007, 272, QHL2(q)) + BandLoss(d, 3279, 272, QLH2(q)) + 3 * BandLoss(d, 3551, 256, QHH2(q)))
  + 3 * (BandLoss(d, 0, 1023, QHL1(q)) + BandLoss(d, 1023, 1023, QLH1(q)) + 3 * BandLoss(d, 2046, 961, QHH1(q)))

(* rounding of the transforms themselves: two levels *)
Slack == 2
ToSample(v) == Clamp((v + 16) \div 32 + 128, 0, 255)
(* except: width of the square at the last corner that is not judged *)
JudgedBut(rec, samples, loss, except) ==
  LET bound == TLCEval((loss \div 32) + 1 + Slack)
      judged(i) == except = 0 \/ (i - 1) \div 64 < 64 - except \/ (i - 1) % 64 < 64 - except
      worst == LET f(i) == IF judged(i) THEN Abs(ToSample(rec[i]) - samples[i]) ELSE 0 IN MaxOf(4096, f)
  IN  IF \A i \in 1..4096 : Abs(ToSample(rec[i]) - samples[i]) <= bound \/ ~judged(i) THEN ""
      ELSE "a client's picture is off by " \o ToString(worst) \o " levels where quantisation allows " \o ToString(bound)

Judged(rec, samples, loss) == JudgedBut(rec, samples, loss, 0)

Uniform(s) == \A i \in 2..Len(s) : s[i] = s[1]
FlatErr(rec, samples) ==
  IF Uniform(samples) /\ ~Uniform([i \in 1..4096 |-> ToSample(rec[i])])
  THEN "a uniform tile does not decode to a uniform tile" ELSE ""

ClientError(mode, bytes, q, samples) ==
  LET d == TLCEval(Decode(mode, bytes, 4096))
      rec == TLCEval(InverseClassic(UnDiffTail(d.coefs, 64), q))
      r1 == Judged(rec, samples, ClassicLoss(Dwt(samples), q))
  IN  IF d.bad THEN "the entropy code ends early"
      ELSE IF r1 # "" THEN r1 ELSE FlatErr(rec, samples)

(* ref: coefficients the client holds (zero for a plain tile) *)
(* raw: the unquantised transform of the samples *)
ClientErrorPro(bytes, ref, q, samples, raw, known) ==
  LET d == TLCEval(Decode(1, bytes, 4096))
      dd == UnDiffTail(d.coefs, 81)
      c == TLCEval([i \in 1..4096 |-> Wrap16(dd[i] + ref[i])])
      rec == TLCEval(InverseExtrap(c, q))
      \* known finding: the last pixel when the corner of the first level overflows
      r1 == JudgedBut(rec, samples, ExtrapLoss(raw, q), IF CornerFits(samples) \/ ~known THEN 0 ELSE 1)
  IN  IF d.bad THEN "the entropy code ends early"
      ELSE IF r1 # "" THEN r1 ELSE FlatErr(rec, samples)
=============================================================================
