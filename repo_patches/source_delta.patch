From 32a8e116ab2ed6b66a5183bc667a787ddde8b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:04 +0000
Subject: [PATCH 1/6] fix: check space for tileset and tile headers before
 writing them

With a small output buffer rfx_compose_message_tileset() and the tile
composers wrote their fixed size headers past the end of the buffer.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From 97b5e0da07087252471ec8d8c5b6bb99a8fa28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 2/6] fix: a failed encode no longer uses up the header or a
 frame number

When composing the message failed after the header or frame begin block
was written, header_processed and frame_idx stayed changed although the
caller got nothing to send, so the header never reached the client.
---
 src/rfxencode.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..f823153 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,10 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        /* a failed call sends nothing, it must not use up the header or
+           a frame number */
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +412,18 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    /* a failed call sends nothing, it must not use up the header or
+       a frame number */
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +436,12 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+        return -1;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0


From 49a2fb990a10582b5fffa4dc1bcf58bde062ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 3/6] fix: keep progressive tile history in step with what is
 sent

An invalid tile or a failed allocation after some tiles were composed
made the whole call fail although the history of those tiles was already
updated, so later difference tiles were against data never sent.
---
 src/rfxencode_compose.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..805eb02 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -800,6 +800,24 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    /* check all the tiles before the history of any of them is updated */
+    for (index = 0; index < num_tiles; index++)
+    {
+        quantIdxY = tiles[index].quant_y;
+        quantIdxCb = tiles[index].quant_cb;
+        quantIdxCr = tiles[index].quant_cr;
+        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
+            (quantIdxCr >= num_quants))
+        {
+            return -1;
+        }
+        xIdx = tiles[index].x / 64;
+        yIdx = tiles[index].y / 64;
+        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
+        {
+            return -1;
+        }
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, PRO_WBT_REGION);
     stream_seek_uint32(s); /* blockLen, set later */
@@ -832,18 +850,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
-        {
-            return -1;
-        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
@@ -866,7 +875,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                /* keep the tiles already written, their history
+                   is updated */
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From 50c026c306620a3764d06b0b0bda8783d54da752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 4/6] fix: correct the lengths of tiles with alpha

The block length left out the ALen field and, for run length encoded
planes, ALen left out the flags byte, so the block length did not lead
to the next tile.
---
 src/rfxencode_alpha.c   | 1 +
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..228e704 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -279,6 +279,7 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
+        bytes += 1; /* flags byte */
     }
     return bytes;
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 805eb02..d38dcff 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -303,7 +303,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -403,7 +403,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From 561c200a5f7ccd7dbd09ebfe11b460a76d7c92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 5/6] fix: do not read past the last coefficient in the RLGR3
 encoder

When the last coefficient is the first of a pair, its partner was read
from behind the buffer; use 0 like rfx_rlgr3_encode does.
---
 src/rfxencode_diff_rlgr3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..e848890 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,14 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0;
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From f96be579b2968cdbbbee79e66c690f1591e4c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:21 +0000
Subject: [PATCH 6/6] verif: optional red zones between the work buffers
 (RFX_VERIF)

Off by default, the layout and the code are unchanged without the define.
---
 src/rfxencode.c         | 13 +++++++++++++
 src/rfxencode.h         | 27 +++++++++++++++++++++++++++
 src/rfxencode_compose.c |  2 ++
 3 files changed, 42 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index f823153..e5ca49c 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -119,6 +119,19 @@ rfxcodec_encode_create_ex(int width, int height, int format, int flags,
         return 1;
     }
 
+    RFX_VERIF_ARM(enc, rz1);
+    RFX_VERIF_ARM(enc, rz2);
+    RFX_VERIF_ARM(enc, rz3);
+    RFX_VERIF_ARM(enc, rz4);
+    RFX_VERIF_ARM(enc, rz5);
+    RFX_VERIF_ARM(enc, rz6);
+    RFX_VERIF_ARM(enc, rz7);
+    RFX_VERIF_ARM(enc, rz8);
+    RFX_VERIF_ARM(enc, rz9);
+    RFX_VERIF_ARM(enc, rz10);
+    RFX_VERIF_ARM(enc, rz11);
+    RFX_VERIF_ARM(enc, rz12);
+
     enc->dwt_buffer = (sint16 *) (((size_t) (enc->dwt_buffer_a)) & ~15);
     enc->dwt_buffer1 = (sint16 *) (((size_t) (enc->dwt_buffer1_a)) & ~15);
     enc->dwt_buffer2 = (sint16 *) (((size_t) (enc->dwt_buffer2_a)) & ~15);
diff --git a/src/rfxencode.h b/src/rfxencode.h
index 28b1479..8b9e896 100644
--- a/src/rfxencode.h
+++ b/src/rfxencode.h
@@ -21,6 +21,19 @@
 
 struct rfxencode;
 
+/* with RFX_VERIF defined, the work buffers are kept apart by zones that
+   nothing may touch, rfx_verif_redzone() comes from the test harness */
+#if defined(RFX_VERIF)
+#define RFX_VERIF_REDZONE(_name) uint8 _name[64];
+#define RFX_VERIF_ARM(_obj, _name) \
+    rfx_verif_redzone((_obj)->_name, sizeof((_obj)->_name))
+void
+rfx_verif_redzone(void *data, int bytes);
+#else
+#define RFX_VERIF_REDZONE(_name)
+#define RFX_VERIF_ARM(_obj, _name)
+#endif
+
 typedef int (*rfx_encode_rgb_to_yuv_proc)(struct rfxencode *enc,
                                           const char *rgb_data,
                                           int width, int height,
@@ -36,7 +49,9 @@ typedef int (*rfx_encode_proc)(struct rfxencode *enc, const char *qtable,
 struct rfx_rb
 {
     sint16 y[4096];
+    RFX_VERIF_REDZONE(rz1)
     sint16 u[4096];
+    RFX_VERIF_REDZONE(rz2)
     sint16 v[4096];
 };
 
@@ -58,18 +73,30 @@ struct rfxencode
     int pro_ver;
     int pad0[6];
 
+    RFX_VERIF_REDZONE(rz1)
     uint8 a_buffer[4096];
+    RFX_VERIF_REDZONE(rz2)
     uint8 y_r_buffer[4096];
+    RFX_VERIF_REDZONE(rz3)
     uint8 u_g_buffer[4096];
+    RFX_VERIF_REDZONE(rz4)
     uint8 v_b_buffer[4096];
+    RFX_VERIF_REDZONE(rz5)
     uint8 pad1[16];
     sint16 dwt_buffer_a[4096];
+    RFX_VERIF_REDZONE(rz6)
     sint16 dwt_buffer1_a[4096];
+    RFX_VERIF_REDZONE(rz7)
     sint16 dwt_buffer2_a[4096];
+    RFX_VERIF_REDZONE(rz8)
     sint16 dwt_buffer3_a[4096];
+    RFX_VERIF_REDZONE(rz9)
     sint16 dwt_buffer4_a[4096];
+    RFX_VERIF_REDZONE(rz10)
     sint16 dwt_buffer5_a[4096];
+    RFX_VERIF_REDZONE(rz11)
     sint16 dwt_buffer6_a[4096];
+    RFX_VERIF_REDZONE(rz12)
     uint8 pad2[16];
     sint16 *dwt_buffer;
     sint16 *dwt_buffer1;
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index d38dcff..c4db11c 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -879,6 +879,8 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
                    is updated */
                 break;
             }
+            RFX_VERIF_ARM(rb, rz1);
+            RFX_VERIF_ARM(rb, rz2);
             enc->rbs[xIdx][yIdx] = rb;
         }
         rfx_rem_dwt_shift_encode(y_buffer, enc->dwt_buffer1,
-- 
2.43.0

