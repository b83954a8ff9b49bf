From 497dc6a892e34ece7994d41f4338ee3cc8344db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 01/10] fix: check for space before writing the tileset and
 tile headers

A capacity that ended inside the tileset header, the quantization tables
or a tile header was written past.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From 239eb7a4d5fbb1f355817c44e2409beafdf8da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 02/10] fix: a failed encode must not use up the header or a
 frame number

A call that returned -1 after the header or frame begin block had been
composed left header_processed set and frame_idx advanced, so the client
never got the header, or saw a gap in the frame numbers.
---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..9431f18 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,10 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        /* a call that fails sends nothing, so it must not use up
+           the header or a frame number */
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +412,16 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +434,11 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0


From 868298aacea74cc2dd0d7d2aab7c33dd2e6c173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:08 +0000
Subject: [PATCH 03/10] fix: progressive encode must not fail after updating
 tile history

A bad quant index or position in a later tile, or failing to allocate a
later tile's history, returned -1 after the history of earlier tiles in
the same, never sent, message had been updated, so later difference
tiles decoded wrong. Check all tiles first, and end the message with the
tiles written so far when an allocation fails.
---
 src/rfxencode_compose.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..c02c34e 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -800,6 +800,24 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    /* reject bad tiles before the history of any tile is updated */
+    for (index = 0; index < num_tiles; index++)
+    {
+        quantIdxY = tiles[index].quant_y;
+        quantIdxCb = tiles[index].quant_cb;
+        quantIdxCr = tiles[index].quant_cr;
+        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
+            (quantIdxCr >= num_quants))
+        {
+            return -1;
+        }
+        xIdx = tiles[index].x / 64;
+        yIdx = tiles[index].y / 64;
+        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
+        {
+            return -1;
+        }
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, PRO_WBT_REGION);
     stream_seek_uint32(s); /* blockLen, set later */
@@ -832,18 +850,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
-        {
-            return -1;
-        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
@@ -866,7 +875,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From e6e5c587830ed45729f4fa7b9092f39878b62a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:08 +0000
Subject: [PATCH 04/10] fix: rfx_encode_diff_rlgr3 read past the last
 coefficient

When the last coefficient starts a Golomb-Rice pair the second value was
read from past the end of the coefficients; it must be zero, as in
rfx_rlgr3_encode.
---
 src/rfxencode_diff_rlgr3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..2b846d8 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,14 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0; /* odd coefficient out */
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From 440a39f3405eeca5ead5c163f4362d89ca29e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:08 +0000
Subject: [PATCH 05/10] fix: lengths of tiles with alpha

The tile header is 21 bytes when it has ALen, and ALen, and so blockLen,
left out the flags byte when the alpha plane was run length encoded.
---
 src/rfxencode_alpha.c   | 1 +
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..8a892e0 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -279,6 +279,7 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
+        bytes += 1; /* flags */
     }
     return bytes;
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index c02c34e..c433a3a 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -303,7 +303,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -403,7 +403,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From 993d69b6a40babb0931ec3f2042aa2ff0e2a0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:26 +0000
Subject: [PATCH 06/10] fix: check the quant indices of tiles

As in progressive mode, a tile whose quant index has no quant table is an
error; the table was read from past the end of the caller's tables.
---
 src/rfxencode_compose.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index c433a3a..f8cdd38 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -453,6 +453,18 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         quantVals = quants;
     }
     numTiles = num_tiles;
+    for (index = 0; index < numTiles; index++)
+    {
+        if ((tiles[index].quant_y < 0) ||
+            (tiles[index].quant_y >= numQuants) ||
+            (tiles[index].quant_cb < 0) ||
+            (tiles[index].quant_cb >= numQuants) ||
+            (tiles[index].quant_cr < 0) ||
+            (tiles[index].quant_cr >= numQuants))
+        {
+            return -1;
+        }
+    }
     size = 22 + numQuants * 5;
     if (stream_get_left(s) < size)
     {
-- 
2.43.0


From 6aa6d238537f63d35cd99e71d9fcc454fe4485bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/10] fix: progressive tile checks must not truncate what
 they check

---
 src/rfxencode_compose.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index f8cdd38..9d48cbb 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -815,17 +815,19 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     /* reject bad tiles before the history of any tile is updated */
     for (index = 0; index < num_tiles; index++)
     {
-        quantIdxY = tiles[index].quant_y;
-        quantIdxCb = tiles[index].quant_cb;
-        quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
+        if ((tiles[index].quant_y < 0) ||
+            (tiles[index].quant_y >= num_quants) ||
+            (tiles[index].quant_cb < 0) ||
+            (tiles[index].quant_cb >= num_quants) ||
+            (tiles[index].quant_cr < 0) ||
+            (tiles[index].quant_cr >= num_quants))
         {
             return -1;
         }
-        xIdx = tiles[index].x / 64;
-        yIdx = tiles[index].y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
+        x = tiles[index].x;
+        y = tiles[index].y;
+        if ((x < 0) || (x >= RFX_MAX_RB_X * 64) ||
+            (y < 0) || (y >= RFX_MAX_RB_Y * 64))
         {
             return -1;
         }
-- 
2.43.0


From b58b820d1563d86ad79f48c7d4c63fd47378376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 08/10] fix: refuse counts that do not fit their fields in the
 message

More than 65535 rectangles or 255 quantisation tables were cut to the width
of the field but all written, so that the message could not be parsed. More
than 65535 tiles now end the message like a full buffer does.
---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 9431f18..a0a9d56 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -384,6 +384,21 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 
     enc = (struct rfxencode *) handle;
 
+    /* the counts must fit their fields in the message */
+    if ((num_regions < 0) || (num_regions > 0xFFFF))
+    {
+        return -1;
+    }
+    if ((quants != NULL) && ((num_quants < 0) || (num_quants > 0xFF)))
+    {
+        return -1;
+    }
+    if (num_tiles > 0xFFFF)
+    {
+        /* the rest is for another call, as when the space runs out */
+        num_tiles = 0xFFFF;
+    }
+
     s.data = (uint8 *) cdata;
     s.p = s.data;
     s.size = *cdata_bytes;
-- 
2.43.0


From d42887c4c33d4fb81348b2db0c9e68c4f708dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 09/10] fix: progressive region must check the space for the
 tables it writes

Without tables the default one is written, whatever num_quants says.
---
 src/rfxencode_compose.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 9d48cbb..5894b6d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -803,15 +803,15 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     sint16 *dwt_buffer_u;
     sint16 *dwt_buffer_v;
 
-    if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)
-    {
-        return -1;
-    }
     if (quants == NULL)
     {
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)
+    {
+        return -1;
+    }
     /* reject bad tiles before the history of any tile is updated */
     for (index = 0; index < num_tiles; index++)
     {
-- 
2.43.0


From c2f01fe99d987b9611560a57203efe2d9b71812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:50 +0000
Subject: [PATCH 10/10] fix: tile offsets in images of more than 2 GB

y * stride_bytes overflowed int and memory before the image was read.
---
 src/rfxencode_compose.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 5894b6d..329cff3 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -22,6 +22,7 @@
 #include <config_ac.h>
 #endif
 
+#include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -436,7 +437,7 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     int numTiles;
     int tilesDataSize;
     int x;
-    int y;
+    ptrdiff_t y; /* y * stride_bytes can be more than an int holds */
     int cx;
     int cy;
     const char *tile_data;
@@ -770,7 +771,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     int end_pos;
     int tiles_written;
     int x;
-    int y;
+    ptrdiff_t y; /* y * stride_bytes can be more than an int holds */
     uint8 quantIdxY;
     uint8 quantIdxCb;
     uint8 quantIdxCr;
-- 
2.43.0

