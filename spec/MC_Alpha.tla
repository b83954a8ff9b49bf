------------------------------ MODULE MC_Alpha ------------------------------
(* Every way of writing a small alpha plane in the planar run-length code: a   *)
(* writer that chooses freely between literals and runs.  Whatever it writes   *)
(* is accepted by PlaneOk, and a client decodes it to the plane; bytes are     *)
(* accepted exactly if a client decodes them to the plane.                     *)
EXTENDS RfxAlpha
CONSTANTS W, N,        \* width, number of samples
          Planes,      \* planes to write
          Lits, Runs,  \* numbers of literals and lengths of runs to choose from
          Most,        \* most control bytes
          Mistake
VARIABLES a, b, n, c
vars == <<a, b, n, c>>
Init == a \in Planes /\ b = <<16>> /\ n = 0 /\ c = 0
Code(raw, run) == IF run >= 32 THEN (run - 32) * 16 + 2 ELSE IF run >= 16 THEN (run - 16) * 16 + 1 ELSE raw * 16 + run
Put(D, raw, run) ==
  /\ c < Most /\ c' = c + 1
    /\ n < N /\ raw + run > 0 /\ raw + run <= W - (n % W)
  /\ raw <= 15 /\ (run >= 16 => raw = 0 /\ run <= 47)
  /\ run \notin {1, 2} \/ "short_run" \in Mistake
  /\ LET last == IF raw > 0 THEN D[n + raw] ELSE IF n % W = 0 /\ "row_start" \notin Mistake THEN 0 ELSE IF n = 0 THEN 0 ELSE D[n]
     IN  \A j \in 1..run : D[n + raw + j] = last
  /\ b' = b \o <<Code(raw, run)>> \o SubSeq(D, n + 1, n + raw)
  /\ n' = n + raw + run /\ UNCHANGED a
Next == \E D \in {DeltaPlane(a, W)} : \E raw \in Lits, run \in Runs : Put(D, raw, run)
Spec == Init /\ [][Next]_vars

Whole == n = N
(* C12 *)
Lossless == Whole => DecodePlane(b, W, N) = a
Accepted == Whole => PlaneOk(b, 0, Len(b), a, W)
(* acceptance is decoding, also of damaged codes *)
Exact == Whole =>
  /\ \A k \in 0..(Len(b) - 1) : ~PlaneOk(SubSeq(b, 1, k), 0, k, a, W)
  /\ ~PlaneOk(b \o <<0>>, 0, Len(b) + 1, a, W)
  /\ \A i \in 1..Len(b) : \A v \in {(b[i] + 1) % 256, (b[i] + 2) % 256, (b[i] + 16) % 256, (b[i] + 240) % 256, (b[i] + 255) % 256, 0, 1, 3} :
       LET x == [b EXCEPT ![i] = v] IN PlaneOk(x, 0, Len(x), a, W) <=> DecodePlane(x, W, N) = a
(* the raw form *)
RawOk == n = 0 => LET r == <<0>> \o a \o <<0>> IN PlaneOk(r, 0, Len(r), a, W) /\ DecodePlane(r, W, N) = a
(* a row difference can be undone, whatever the two values *)
DeltaInverse == n = 0 => \A x \in 0..255 : UnDelta(a[1], Delta(x, a[1])) = x

AllOf(S, k) == [1..k -> S]
Small == AllOf({0, 1, 255}, 6)
Small2 == AllOf({0, 128}, 8)
Wide == {[i \in 1..64 |-> IF i <= k THEN x ELSE IF i <= m THEN y ELSE 0] : x \in {0, 7}, y \in {0, 7, 200}, k \in {0, 1, 15, 16, 17, 47, 48}, m \in {40, 63, 64}}
Values == {<<v, w>> : v \in 0..255, w \in {0, 1, 127, 128, 255}}
=============================================================================
