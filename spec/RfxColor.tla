------------------------------ MODULE RfxColor ------------------------------
(* From image bytes to the 64x64 planes of a tile.                           *)
EXTENDS RfxBase

BGRA == 0  RGBA == 1  BGR == 2  RGB == 3  YUV == 4
BytesPP(fmt) == IF fmt \in {BGR, RGB} THEN 3 ELSE 4
ROff(fmt) == IF fmt \in {BGRA, BGR} THEN 2 ELSE 0
GOff == 1
BOff(fmt) == IF fmt \in {BGRA, BGR} THEN 0 ELSE 2
HasAlpha(fmt) == fmt \in {BGRA, RGBA, YUV}

(* fixed-point ICT *)
LumaOf(r, g, b) == Clamp((19595 * r + 38470 * g + 7471 * b) \div 65536, 0, 255)
CbOf(r, g, b) == Clamp(((32807 * b - 11071 * r - 21736 * g) \div 65536) + 128, 0, 255)
CrOf(r, g, b) == Clamp(((32756 * r - 27429 * g - 5327 * b) \div 65536) + 128, 0, 255)

(* zero-based offset of the pixel that sample i (1..4096) of a tile takes:   *)
(* columns beyond cx repeat the last column, rows beyond cy the last row     *)
PixOff(i, t, stride, bpp) ==
  LET row == Mn((i - 1) \div 64, t.cy - 1)
      col == Mn((i - 1) % 64, t.cx - 1)
  IN  (t.y + row) * stride + (t.x + col) * bpp

(* t = [x, y, cx, cy]; px the image bytes, off its start; result <<Y, Cb, Cr>> *)
PackedPlanes(px, off, stride, fmt, t) ==
  LET bpp == BytesPP(fmt)
      at == TLCEval([i \in 1..4096 |-> off + PixOff(i, t, stride, bpp) + 1])
      R == TLCEval([i \in 1..4096 |-> px[at[i] + ROff(fmt)]])
      G == TLCEval([i \in 1..4096 |-> px[at[i] + GOff]])
      B == TLCEval([i \in 1..4096 |-> px[at[i] + BOff(fmt)]])
  IN  <<TLCEval([i \in 1..4096 |-> LumaOf(R[i], G[i], B[i])]),
        TLCEval([i \in 1..4096 |-> CbOf(R[i], G[i], B[i])]),
        TLCEval([i \in 1..4096 |-> CrOf(R[i], G[i], B[i])])>>

(* YUV tiled: per tile four planes of 4096 bytes (Y U V A), tiles in raster    *)
(* order, stride/256 of them in a row; number of a tile in the image, which     *)
(* starts off tiles before the address given                                   *)
YuvTile(off, stride, t) == off + (t.y \div 64) * (stride \div 256) + t.x \div 64

AlphaPlane(px, off, stride, fmt, t) == TLCEval([i \in 1..4096 |-> px[off + PixOff(i, t, stride, 4) + 4]])
=============================================================================
