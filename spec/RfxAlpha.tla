------------------------------ MODULE RfxAlpha ------------------------------
(* The planar run-length code of the alpha plane, read the way a client     *)
(* reads it.                                                                *)
EXTENDS RfxBase, SequencesExt

(* row r > 0 holds, per column, the difference from the row above with the   *)
(* sign in the low bit                                                      *)
Delta(a, above) ==
  LET d == Wrap16(a - above) % 256 IN IF d >= 128 THEN 2 * (256 - d) - 1 ELSE 2 * d
DeltaPlane(a, W) == TLCEval([i \in 1..Len(a) |-> IF i <= W THEN a[i] ELSE Delta(a[i], a[i - W])])

(* client's inverse of one delta *)
UnDelta(above, v) == (above + (IF v % 2 = 1 THEN -((v + 1) \div 2) ELSE v \div 2)) % 256

(* One control byte at offset p (zero-based) of b, with n samples of the     *)
(* plane read so far: raw samples follow, then a run of the last sample (of  *)
(* 0 at the start of a row).  A control byte may not reach past its row.     *)
(* State <<p, n, bad>>; d is the delta plane, W wide, the code must give.    *)
AStep(b, end, d, W, st) ==
  LET p == st[1] n == st[2]
  IN  IF st[3] \/ n >= Len(d) THEN st
      ELSE IF p >= end THEN <<p, n, TRUE>>
      ELSE LET lo == b[p + 1] % 16  hi == b[p + 1] \div 16
               raw == IF lo \in {1, 2} THEN 0 ELSE hi
               run == IF lo = 1 THEN hi + 16 ELSE IF lo = 2 THEN hi + 32 ELSE lo
               left == W - (n % W)
           IN  IF raw + run = 0 \/ raw + run > left \/ p + 1 + raw > end
               THEN <<p, n, TRUE>>
               ELSE LET last == IF raw > 0 THEN b[p + 1 + raw]
                                ELSE IF n % W = 0 THEN 0 ELSE d[n]
                    IN  IF /\ \A j \in 1..raw : b[p + 1 + j] = d[n + j]
                           /\ \A j \in 1..run : last = d[n + raw + j]
                        THEN <<p + 1 + raw, n + raw + run, FALSE>>
                        ELSE <<p, n, TRUE>>

(* b[from+1 .. from+len] is a code of the W wide plane a; len is used up completely *)
PlaneOk(b, from, len, a, W) ==
  IF len < 1 THEN FALSE
  ELSE IF b[from + 1] = 0      \* raw
  THEN /\ len = Len(a) + 2
       /\ \A i \in 1..Len(a) : b[from + 1 + i] = a[i]
       /\ b[from + len] = 0
  ELSE IF b[from + 1] = 16     \* run-length coded
  THEN LET d == DeltaPlane(a, W)
           s == FoldLeft(LAMBDA st, i : AStep(b, from + len, d, W, st), <<from + 1, 0, FALSE>>,
                         [i \in 1..Mn(Len(a), len) |-> i])
       IN  ~s[3] /\ s[2] = Len(a) /\ s[1] = from + len
  ELSE FALSE
AlphaOk(b, from, len, a) == PlaneOk(b, from, len, a, 64)

----------------------------------------------------------------------------
(* The same code read without knowing the plane: what a client gets from all  *)
(* of b, W x N samples, or <<>> if b is no code.  MC_Alpha compares the two.   *)
DStep(b, W, N, st) ==
  LET p == st[1]  d == st[2]  n == Len(d)
  IN  IF st[3] \/ n >= N THEN st
      ELSE IF p >= Len(b) THEN <<p, d, TRUE>>
      ELSE LET lo == b[p + 1] % 16  hi == b[p + 1] \div 16
               raw == IF lo \in {1, 2} THEN 0 ELSE hi
               run == IF lo = 1 THEN hi + 16 ELSE IF lo = 2 THEN hi + 32 ELSE lo
               d1 == d \o SubSeq(b, p + 2, p + 1 + raw)
               last == IF Len(d1) % W = 0 THEN 0 ELSE d1[Len(d1)]
           IN  IF raw + run = 0 \/ raw + run > W - (n % W) \/ p + 1 + raw > Len(b) THEN <<p, d, TRUE>>
               ELSE <<p + 1 + raw, d1 \o [j \in 1..run |-> last], FALSE>>
DecodePlane(b, W, N) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] = 0 THEN IF Len(b) = N + 2 /\ b[N + 2] = 0 THEN SubSeq(b, 2, N + 1) ELSE <<>>
  ELSE IF b[1] # 16 THEN <<>>
  ELSE LET s == FoldLeft(LAMBDA st, i : DStep(b, W, N, st), <<1, <<>>, FALSE>>, [i \in 1..Len(b) |-> i])
           d == s[2]
       IN  IF s[3] \/ Len(d) # N \/ s[1] # Len(b) THEN <<>>
           ELSE FoldLeft(LAMBDA a, v : Append(a, IF Len(a) < W THEN v ELSE UnDelta(a[Len(a) - W + 1], v)), <<>>, d)
=============================================================================
