------------------------------ MODULE MC_Color ------------------------------
(* The colour conversion over a grid of colours, and the pixels a tile of any  *)
(* size takes.  A walk over the (r, g) plane; b is quantified in the           *)
(* invariants.                                                                 *)
EXTENDS RfxColor
CONSTANTS Step,    \* grid of colours
          Sizes    \* tile sizes
VARIABLES r, g
vars == <<r, g>>
Up(v) == IF v = 255 THEN 0 ELSE Mn(v + Step, 255)
Init == r = 0 /\ g = 0
Next == \/ r < 255 /\ r' = Up(r) /\ UNCHANGED g
        \/ r = 255 /\ g < 255 /\ g' = Up(g) /\ r' = 0
Spec == Init /\ [][Next]_vars
B == {b \in 0..255 : b % Step = 0 \/ b = 255}

(* no information is lost to clamping *)
RawY(b) == (19595 * r + 38470 * g + 7471 * b) \div 65536
RawCb(b) == ((32807 * b - 11071 * r - 21736 * g) \div 65536) + 128
RawCr(b) == ((32756 * r - 27429 * g - 5327 * b) \div 65536) + 128
NoClamp == \A b \in B : RawY(b) \in 0..255 /\ RawCb(b) \in 0..255 /\ RawCr(b) \in 0..255
(* a client's matrix (in 1/1024) gives back the colour, up to rounding *)
Near(v, w) == Abs(v - w) <= 3
Back == \A b \in B :
  LET y == LumaOf(r, g, b)  cb == CbOf(r, g, b) - 128  cr == CrOf(r, g, b) - 128
  IN  /\ Near(y + ((1436 * cr + 512) \div 1024), r)
      /\ Near(y - ((352 * cb + 732 * cr + 512) \div 1024), g)
      /\ Near(y + ((1812 * cb + 512) \div 1024), b)
(* grey has no chroma *)
Grey == r = g => LumaOf(r, r, r) = r /\ CbOf(r, r, r) = 128 /\ CrOf(r, r, r) = 128
(* brighter is not darker *)
Monotone == \A b \in B : r < 255 => LumaOf(r, g, b) <= LumaOf(r + 1, g, b)
(* the four formats differ in the order of bytes only *)
Orders == (r % 85 = 0 /\ g % 85 = 0) => \A b \in {0, 77, 255} :
  LET t == [x |-> 0, y |-> 0, cx |-> 1, cy |-> 1]
      at(px, f) == PackedPlanes(px, 0, 4, f, t)
      first(p) == <<p[1][1], p[2][1], p[3][1]>>
      want == <<LumaOf(r, g, b), CbOf(r, g, b), CrOf(r, g, b)>>
  IN  /\ first(at(<<b, g, r, 9>>, BGRA)) = want /\ first(at(<<r, g, b, 9>>, RGBA)) = want
      /\ first(at(<<b, g, r>>, BGR)) = want /\ first(at(<<r, g, b>>, RGB)) = want
(* a tile of cx by cy takes all of its pixels and no others, each sample inside *)
(* the tile from its own place (evaluated once)                                *)
Pixels == (r = 0 /\ g = 0) =>
  \A cx \in Sizes, cy \in Sizes :
    LET t == [x |-> 3, y |-> 5, cx |-> cx, cy |-> cy]
        st == 400
        rect == {(5 + j) * st + (3 + i) * 4 : i \in 0..(cx - 1), j \in 0..(cy - 1)}
    IN  /\ {PixOff(i, t, st, 4) : i \in 1..4096} = rect
        /\ \A i \in 0..(cx - 1), j \in 0..(cy - 1) : PixOff(64 * j + i + 1, t, st, 4) = (5 + j) * st + (3 + i) * 4
        /\ \A i \in cx..63, j \in 0..63 : PixOff(64 * j + i + 1, t, st, 4) = PixOff(64 * j + cx, t, st, 4)
        /\ \A j \in cy..63, i \in 0..63 : PixOff(64 * j + i + 1, t, st, 4) = PixOff(64 * (cy - 1) + i + 1, t, st, 4)
=============================================================================
