------------------------------ MODULE RfxRlgr ------------------------------
(* The adaptive Run-Length / Golomb-Rice coder of [MS-RDPRFX] 3.1.8.1.7,    *)
(* as a state machine over coefficients.                                    *)
(*                                                                          *)
(* One step consumes one coefficient.  The state is                         *)
(*   <<p, kp, krp, r, z, pend, ok>>                                         *)
(*   p    bits written so far (position in the bit string being checked)    *)
(*   kp, krp  adaptive parameters, scaled by 8                              *)
(*   r    zeros collected since the last run token (run-length mode)        *)
(*   z    1 when the last coefficient was a zero taken in run-length mode,  *)
(*        so that the end of the block has to terminate the run             *)
(*   pend RLGR3: first value of a Golomb-Rice pair, -1 when there is none    *)
(*   ok   0 as long as every code word was found in the bit string, else    *)
(*        the (1-based) number of bits at which it first differed           *)
(*                                                                          *)
(* Accept* are written as acceptors: the code word each step has to emit is *)
(* compared with the bit string at p.  Encode and Decode are the generator  *)
(* and the client's inverse; MC_Rlgr relates all three.                     *)
EXTENDS RfxBase, SequencesExt

LOCAL KPMAX == 80
Up(v, d) == Mn(KPMAX, v + d)
Dn(v, d) == Mx(0, v - d)

TwoMs(c) == IF c >= 0 THEN 2 * c ELSE -2 * c - 1
UnTwoMs(t) == IF t % 2 = 0 THEN t \div 2 ELSE -((t + 1) \div 2)

RECURSIVE MinBits(_)
MinBits(v) == IF v = 0 THEN 0 ELSE IF v >= 256 THEN 8 + MinBits(v \div 256) ELSE 1 + MinBits(v \div 2)

(* n <= 17 bits at bit offset p of the bytes b; b is padded with 3 zero bytes *)
Bits(b, p, n) ==
  LET i == p \div 8
  IN  ((b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]) \div Pow2(24 - (p % 8) - n)) % Pow2(n)

InBits(b, p, n) == p + n <= 8 * (Len(b) - 3)

(* Golomb-Rice code word of v with parameter krp: lvk ones, a zero, lkr bits. *)
(* GR gives <<length, next krp>> when the code word is found at p, else       *)
(* <<0, 0>>.                                                                  *)
KRTab == [i \in 1..81 |-> (i - 1) \div 8]
KDTab == [i \in 1..81 |-> Pow2((i - 1) \div 8)]
GRNext(v, krp) ==
  LET lvk == v \div KDTab[krp + 1]
  IN  IF lvk = 0 THEN Dn(krp, 2) ELSE IF lvk > 1 THEN Up(krp, lvk) ELSE krp
GRLong(b, p, v, lvk, kr, d) ==
  /\ InBits(b, p, lvk + 1 + kr)
  /\ \A i \in 0..((lvk \div 16) - 1) : Bits(b, p + 16 * i, 16) = 65535
  /\ Bits(b, p + 16 * (lvk \div 16), (lvk % 16) + 1) = Pow2((lvk % 16) + 1) - 2
  /\ (kr > 0) => Bits(b, p + lvk + 1, kr) = v % d
GRFull(b, p, v, krp, lvk, d, kr) ==
  IF lvk + kr < 17
  THEN IF /\ InBits(b, p, lvk + 1 + kr)
          /\ Bits(b, p, lvk + 1 + kr) = (Pow2(lvk + 1) - 2) * d + (v % d)
       THEN <<lvk + 1 + kr, IF lvk = 0 THEN Dn(krp, 2) ELSE IF lvk > 1 THEN Up(krp, lvk) ELSE krp>>
       ELSE <<0, 0>>
  ELSE IF GRLong(b, p, v, lvk, kr, d) THEN <<lvk + 1 + kr, Up(krp, lvk)>> ELSE <<0, 0>>
GR(b, p, v, krp) == GRFull(b, p, v, krp, v \div KDTab[krp + 1], KDTab[krp + 1], KRTab[krp + 1])

RlgrInit == <<0, 8, 8, 0, 0, -1, 0>>

(* run-length mode, common to RLGR1 and RLGR3 *)
RLStep(b, st, c) ==
  LET p == st[1]
      k == KRTab[st[2] + 1]
  IN  IF c = 0
      THEN IF st[4] + 1 = KDTab[st[2] + 1]
           THEN IF InBits(b, p, 1) /\ Bits(b, p, 1) = 0
                THEN <<p + 1, Up(st[2], 4), st[3], 0, 1, -1, 0>>
                ELSE <<p, st[2], st[3], st[4], 1, -1, p + 1>>
           ELSE <<p, st[2], st[3], st[4] + 1, 1, -1, 0>>
      ELSE IF /\ InBits(b, p, k + 2)
              /\ Bits(b, p, k + 2) = Pow2(k + 1) + 2 * st[4] + (IF c < 0 THEN 1 ELSE 0)
           THEN LET g == GR(b, p + k + 2, Abs(c) - 1, st[3])
                IN  IF g[1] > 0
                    THEN <<p + k + 2 + g[1], Dn(st[2], 6), g[2], 0, 0, -1, 0>>
                    ELSE <<p, st[2], st[3], st[4], 0, -1, p + 1>>
           ELSE <<p, st[2], st[3], st[4], 0, -1, p + 1>>

Step1(b, st, c) ==
  IF st[7] # 0 THEN st
  ELSE IF st[2] >= 8 THEN RLStep(b, st, c)
  ELSE LET g == GR(b, st[1], TwoMs(c), st[3])
       IN  IF g[1] > 0
           THEN <<st[1] + g[1], IF c = 0 THEN Up(st[2], 3) ELSE Dn(st[2], 3), g[2], 0, 0, -1, 0>>
           ELSE [st EXCEPT ![7] = st[1] + 1]

PairStep(b, st, c) ==
  LET t1 == st[6] t2 == TwoMs(c)
      g == GR(b, st[1], t1 + t2, st[3])
      n == MinBits(t1 + t2)
      q == st[1] + g[1]
  IN  IF g[1] > 0 /\ (n = 0 \/ (InBits(b, q, n) /\ Bits(b, q, n) = t1))
      THEN <<q + n,
             IF t1 # 0 /\ t2 # 0 THEN Dn(st[2], 6)
             ELSE IF t1 = 0 /\ t2 = 0 THEN Up(st[2], 6) ELSE st[2],
             g[2], 0, 0, -1, 0>>
      ELSE [st EXCEPT ![7] = st[1] + 1]

Step3(b, st, c) ==
  IF st[7] # 0 THEN st
  ELSE IF st[6] >= 0 THEN PairStep(b, st, c)
  ELSE IF st[2] >= 8 THEN RLStep(b, st, c)
  ELSE <<st[1], st[2], st[3], st[4], 0, TwoMs(c), 0>>

(* end of block: a run in progress is terminated, an odd pair completed with 0 *)
Finish(b, st) ==
  IF st[7] # 0 THEN st
  ELSE IF st[6] >= 0 THEN PairStep(b, st, 0)
  ELSE IF st[5] = 1
       THEN LET k == st[2] \div 8
            IN  IF InBits(b, st[1], k + 1) /\ Bits(b, st[1], k + 1) = Pow2(k) + st[4]
                THEN [st EXCEPT ![1] = st[1] + k + 1]
                ELSE [st EXCEPT ![7] = st[1] + 1]
       ELSE st

(* mode is 1 or 3.  Result: 0 if bytes is exactly the code of coefs, padded *)
(* with zero bits to a whole byte; otherwise the number of the first bit    *)
(* that differs.                                                            *)
AcceptAt(mode, coefs, bytes) ==
  LET b  == bytes \o <<0, 0, 0>>
      s1 == IF mode = 1 THEN FoldLeft(LAMBDA st, c : Step1(b, st, c), RlgrInit, coefs)
                        ELSE FoldLeft(LAMBDA st, c : Step3(b, st, c), RlgrInit, coefs)
      s2 == Finish(b, s1)
      nb == (s2[1] + 7) \div 8
      pad == 8 * nb - s2[1]
  IN  IF s2[7] # 0 THEN s2[7]
      ELSE IF nb # Len(bytes) THEN s2[1] + 1
      ELSE IF pad > 0 /\ Bits(b, s2[1], pad) # 0 THEN s2[1] + 1
      ELSE 0
Accept(mode, coefs, bytes) == AcceptAt(mode, coefs, bytes) = 0

----------------------------------------------------------------------------
(* The same machine as a generator.  gst = <<acceptor state, bit sequence>>. *)
BitsOf(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
Ones(n) == [i \in 1..n |-> 1]
GRBits(v, krp) ==
  LET kr == krp \div 8 IN Ones(v \div Pow2(kr)) \o <<0>> \o BitsOf(v % Pow2(kr), kr)

GenStep(mode, g, c) ==
  TLCEval(LET st == g[1] k == st[2] \div 8
      move(s, bits) == <<[s EXCEPT ![1] = @ + Len(bits)], g[2] \o bits>>
  IN  IF st[6] >= 0
      THEN LET s == st[6] + TwoMs(c)
           IN  move([st EXCEPT ![2] = IF st[6] # 0 /\ c # 0 THEN Dn(@, 6)
                                      ELSE IF st[6] = 0 /\ c = 0 THEN Up(@, 6) ELSE @,
                               ![3] = GRNext(s, @), ![6] = -1],
                    GRBits(s, st[3]) \o BitsOf(st[6], MinBits(s)))
      ELSE IF k > 0
      THEN IF c = 0
           THEN IF st[4] + 1 = Pow2(k)
                THEN move([st EXCEPT ![2] = Up(@, 4), ![4] = 0, ![5] = 1], <<0>>)
                ELSE move([st EXCEPT ![4] = @ + 1, ![5] = 1], <<>>)
           ELSE move([st EXCEPT ![2] = Dn(@, 6), ![3] = GRNext(Abs(c) - 1, @), ![4] = 0, ![5] = 0],
                     <<1>> \o BitsOf(st[4], k) \o <<IF c < 0 THEN 1 ELSE 0>> \o GRBits(Abs(c) - 1, st[3]))
      ELSE IF mode = 1
      THEN move([st EXCEPT ![2] = IF c = 0 THEN Up(@, 3) ELSE Dn(@, 3),
                           ![3] = GRNext(TwoMs(c), @), ![5] = 0], GRBits(TwoMs(c), st[3]))
      ELSE <<[st EXCEPT ![6] = TwoMs(c), ![5] = 0], g[2]>>)

GenFinish(mode, g) ==
  IF g[1][6] >= 0 THEN GenStep(mode, g, 0)
  ELSE IF g[1][5] = 1
       THEN <<g[1], g[2] \o <<1>> \o BitsOf(g[1][4], g[1][2] \div 8)>>
       ELSE g

PackBits(bits) ==
  LET n == (Len(bits) + 7) \div 8
      bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
  IN  [j \in 1..n |-> LET o == 8 * (j - 1) IN
        128 * bit(o + 1) + 64 * bit(o + 2) + 32 * bit(o + 3) + 16 * bit(o + 4)
        + 8 * bit(o + 5) + 4 * bit(o + 6) + 2 * bit(o + 7) + bit(o + 8)]

EncodeBits(mode, coefs) ==
  GenFinish(mode, FoldLeft(LAMBDA g, c : GenStep(mode, g, c), <<RlgrInit, <<>>>>, coefs))[2]
Encode(mode, coefs) == TLCEval(PackBits(TLCEval(EncodeBits(mode, coefs))))

----------------------------------------------------------------------------
(* The client's decoder: n coefficients from bytes; a step consumes one code *)
(* word.  State <<p, kp, krp, out, bad>>.                                   *)
(* number of ones in front of the first zero of a byte *)
LeadTab == [v \in 1..256 |-> IF v <= 128 THEN 0 ELSE IF v <= 192 THEN 1 ELSE IF v <= 224 THEN 2 ELSE IF v <= 240 THEN 3
                             ELSE IF v <= 248 THEN 4 ELSE IF v <= 252 THEN 5 ELSE IF v <= 254 THEN 6 ELSE IF v <= 255 THEN 7 ELSE 8]
CountOnes(b, p, lim) ==
  IF lim < 8 \/ Bits(b, p, 8) # 255
  THEN LET n == LeadTab[Bits(b, p, 8) + 1] IN IF lim < 0 THEN 0 ELSE n
  ELSE LET i == CHOOSE i \in 0..(lim \div 8) : /\ Bits(b, p + 8 * i, 8) # 255
                                               /\ \A j \in 0..(i - 1) : Bits(b, p + 8 * j, 8) = 255
       IN  8 * i + LeadTab[Bits(b, p + 8 * i, 8) + 1]

GRRead(b, p, krp) ==   \* <<value, next p, next krp>>
  LET kr == krp \div 8
      lvk == CountOnes(b, p, 8 * Len(b) - 24 - p)
      rem == IF kr > 0 /\ InBits(b, p + lvk + 1, kr) THEN Bits(b, p + lvk + 1, kr) ELSE 0
      v == Pow2(kr) * lvk + rem
  IN  <<v, p + lvk + 1 + kr, GRNext(v, krp)>>

(* the coefficients read so far: <<how many, the last few, groups before those>> *)
OutNone == <<0, <<>>, <<>>>>
OutAdd(o, v) ==
  IF Len(o[2]) >= 64 THEN <<o[1] + Len(v), v, Append(o[3], o[2])>> ELSE <<o[1] + Len(v), o[2] \o v, o[3]>>
OutAll(o) == FoldLeft(LAMBDA x, y : x \o y, <<>>, o[3]) \o o[2]

DecStep(mode, b, n, st) ==
  LET p == st[1] kp == st[2] krp == st[3] out == st[4]
      k == kp \div 8
  IN  IF out[1] >= n \/ st[5] THEN st
      ELSE IF ~InBits(b, p, 1) THEN [st EXCEPT ![5] = TRUE]
      ELSE IF k > 0
      THEN IF Bits(b, p, 1) = 0
           THEN <<p + 1, Up(kp, 4), krp, OutAdd(out, Zeros(Mn(Pow2(k), n - out[1]))), FALSE>>
           ELSE IF ~InBits(b, p, k + 1) THEN [st EXCEPT ![5] = TRUE]
           ELSE LET r == Bits(b, p + 1, k)
                IN  IF out[1] + r >= n
                    THEN <<p + 1 + k, kp, krp, OutAdd(out, Zeros(n - out[1])), FALSE>>
                    ELSE IF ~InBits(b, p + 1 + k, 1) THEN [st EXCEPT ![5] = TRUE]
                    ELSE LET s == Bits(b, p + 1 + k, 1)
                             g == GRRead(b, p + 2 + k, krp)
                         IN  <<g[2], Dn(kp, 6), g[3],
                               OutAdd(out, Append(Zeros(r), IF s = 1 THEN -(g[1] + 1) ELSE g[1] + 1)), FALSE>>
      ELSE LET g == GRRead(b, p, krp)
           IN  IF mode = 1
               THEN <<g[2], IF g[1] = 0 THEN Up(kp, 3) ELSE Dn(kp, 3), g[3],
                      OutAdd(out, <<UnTwoMs(g[1])>>), FALSE>>
               ELSE LET nb == MinBits(g[1])
                        t1 == IF nb > 0 /\ InBits(b, g[2], nb) THEN Bits(b, g[2], nb) ELSE 0
                        t2 == g[1] - t1
                    IN  <<g[2] + nb,
                          IF t1 # 0 /\ t2 # 0 THEN Dn(kp, 6)
                          ELSE IF t1 = 0 /\ t2 = 0 THEN Up(kp, 6) ELSE kp,
                          g[3], OutAdd(out, IF out[1] + 1 < n THEN <<UnTwoMs(t1), UnTwoMs(Mx(t2, 0))>> ELSE <<UnTwoMs(t1)>>),
                          t2 < 0>>

(* Missing data decodes as zeros; bad is TRUE when the input ran out. *)
Decode(mode, bytes, n) ==
  LET b == bytes \o <<0, 0, 0>>
      s == FoldLeft(LAMBDA st, i : DecStep(mode, b, n, st), <<0, 8, 8, OutNone, FALSE>>, [i \in 1..n |-> i])
  IN  [coefs |-> OutAll(s[4]) \o Zeros(n - s[4][1]), bad |-> s[5] \/ s[4][1] < n, bits |-> s[1]]
=============================================================================
