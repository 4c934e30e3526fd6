From 5d94c6551625013ae946f740a710c28131cfbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 01/43] fix: colorize crashed or produced garbage on white or
 black pixels

The luminance difference spans -(1<<15)..(1<<15) but was held in an int16_t, so
painting black with colorize on a white pixel wrapped around and divided by zero.
---
 brushmodes.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..a24144b 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -209,7 +209,8 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    // The difference spans -(1<<15)..(1<<15), which does not fit 16 bits.
+    const int32_t diff = (int32_t)botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
@@ -219,12 +220,12 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     int32_t lum = LUMA(r, g, b) / (1<<15);
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
-    if (cmin < 0) {
+    if (cmin < 0 && cmin < lum) {
         r = lum + (((r - lum) * lum) / (lum - cmin));
         g = lum + (((g - lum) * lum) / (lum - cmin));
         b = lum + (((b - lum) * lum) / (lum - cmin));
     }
-    if (cmax > (1<<15)) {
+    if (cmax > (1<<15) && cmax > lum) {
         r = lum + (((r - lum) * ((1<<15)-lum)) / (cmax - lum));
         g = lum + (((g - lum) * ((1<<15)-lum)) / (cmax - lum));
         b = lum + (((b - lum) * ((1<<15)-lum)) / (cmax - lum));
@@ -235,9 +236,10 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     assert((0 <= b) && (b <= (1<<15)));
 #endif
 
-    *botr = r;
-    *botg = g;
-    *botb = b;
+    // Guard against rounding errors
+    *botr = CLAMP(r, 0, 1<<15);
+    *botg = CLAMP(g, 0, 1<<15);
+    *botb = CLAMP(b, 0, 1<<15);
 }
 
 
-- 
2.43.0


From dadd5407904bc9f6e33375a79f718699f3aed3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 02/43] fix: division by zero painting with locked alpha on
 almost transparent pixels

Both blend weights can round down to zero in the spectral lock-alpha mode; the
resulting NaN was converted to pixel values.
---
 brushmodes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index a24144b..a62252f 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -466,7 +466,12 @@ void draw_dab_pixels_BlendMode_LockAlpha_Paint (uint16_t * mask,
         rgba[2] = (opa_a*color_b + opa_b*rgba[2])/(1<<15);
         continue;
       }
-      float fac_a = (float)opa_a / (opa_a + opa_b * rgba[3] / (1<<15));
+      const uint32_t opa_sum = opa_a + opa_b * rgba[3] / (1<<15);
+      // both weights can be rounded down to zero on almost transparent pixels
+      if (opa_sum == 0) {
+        continue;
+      }
+      float fac_a = (float)opa_a / opa_sum;
       float fac_b = 1.0 - fac_a;
       float spectral_b[10] = {0};
       rgb_to_spectral((float)rgba[0] / rgba[3], (float)rgba[1] / rgba[3], (float)rgba[2] / rgba[3], spectral_b);
-- 
2.43.0


From 3422aff8d7bebc12933ed7b71a6ca7a257bd827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 03/43] fix: posterize depended on alpha and could exceed it on
 translucent pixels

The quantisation was applied to premultiplied channels, which made channels larger
than alpha (invalid premultiplied colour) and shifted the steps with the alpha.
De-premultiply first; opaque pixels are unaffected.
---
 brushmodes.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index a62252f..f5b6a0f 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -142,13 +142,19 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
   while (1) {
     for (; mask[0]; mask++, rgba+=4) {
      
-      float r = (float)rgba[0] / (1<<15);
-      float g = (float)rgba[1] / (1<<15);
-      float b = (float)rgba[2] / (1<<15);
+      // De-premult, posterizing premultiplied values would depend on the alpha
+      // and could push channels beyond it.
+      const uint32_t a = rgba[3];
+      if (a == 0) {
+        continue;
+      }
+      float r = (float)rgba[0] / a;
+      float g = (float)rgba[1] / a;
+      float b = (float)rgba[2] / a;
 
-      uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
-      uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
-      uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+      uint32_t post_r = a * ROUND(r * posterize_num) / posterize_num;
+      uint32_t post_g = a * ROUND(g * posterize_num) / posterize_num;
+      uint32_t post_b = a * ROUND(b * posterize_num) / posterize_num;
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From 286be597a50e8555bed673ecd8e24108beb61bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 04/43] fix: clamp the posterization level before converting it
 to an integer

Large finite values overflowed the conversion to int (undefined behaviour) and
ended up as one level instead of 128.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..de65bd9 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -637,7 +637,7 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
     op->lock_alpha = CLAMP(lock_alpha, 0.0f, 1.0f);
     op->colorize = CLAMP(colorize, 0.0f, 1.0f);
     op->posterize = CLAMP(posterize, 0.0f, 1.0f);
-    op->posterize_num= CLAMP(ROUND(posterize_num * 100.0), 1, 128);
+    op->posterize_num= ROUND(CLAMP(posterize_num * 100.0, 1, 128));
     op->paint = CLAMP(paint, 0.0f, 1.0f);
     if (op->radius < 0.1f) return FALSE; // don't bother with dabs smaller than 0.1 pixel
     if (op->hardness == 0.0f) return FALSE; // infintly small center point, fully transparent outside
-- 
2.43.0


From 5411b91904361864a2dddbbc3537b00d23e5d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 05/43] fix: keep the pigment factor in range when dynamics
 push it outside

A negative factor mixed colors by extrapolation (with a leftover result of an earlier
mix), giving out of range and NaN colors; a factor above one made picked colors
negative.
---
 mypaint-brush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..426b53f 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1108,7 +1108,9 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
     }
 
-    const float paint_factor = SETTING(self, PAINT_MODE);
+    // dynamics can push the value out of range; below zero would select the
+    // legacy color sampling, and colors would be extrapolated instead of mixed
+    const float paint_factor = CLAMP(SETTING(self, PAINT_MODE), 0.0, 1.0);
     const gboolean paint_setting_constant = mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_PAINT_MODE]);
     const gboolean legacy_smudge = paint_factor <= 0.0 && paint_setting_constant;
 
-- 
2.43.0


From 2ad82a6a7a86d1c6b9be4704e2b8da17e5bdfc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 06/43] fix: dirty rectangles of earlier dabs were dropped when
 a later dab used fewer bounding boxes

---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index de65bd9..22b123a 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Bounding boxes dirtied by earlier dabs in this section stay dirty.
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -949,6 +950,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From c40cc9c9a8049007760f6b3b78eded00a7fbef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 07/43] fix: assertion failure when a flushed tile is drawn to
 while all tiles are dirty

---
 operationqueue.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..2899fe7 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,11 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If there still is no space, every tile in the map is already listed,
+       // including this one (tiles stay listed when a color pick flushes them).
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 5ebad2a10b8d5b93ff4c97b959fdaf7d0bd03eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 08/43] fix: leak of pending operations when an operation queue
 is freed

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From ca32889d92166e231d85d4c78a002e09af7b27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 09/43] fix: spectral color picking depended on how the area is
 divided into tiles

---
 brushmodes.c            | 21 +++++++++------------
 brushmodes.h            |  1 +
 mypaint-tiled-surface.c | 11 ++++++++++-
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index f5b6a0f..44be24c 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -556,6 +556,11 @@ void get_color_pixels_legacy (
 // with the exception of the guaranteed ones. Range: 0.0..1.0.
 // The random sample rate can be set to 0, in which case no random
 // sampling will occur.
+//
+// The additive average is kept in sum_{r,g,b} and the spectral average in
+// avg_spectral (10 values, initially zero). They are not combined here, since
+// converting back and forth between the tiles would make the result depend on
+// how the sampled area is divided into tiles.
 void get_color_pixels_accumulate (uint16_t * mask,
                                   uint16_t * rgba,
                                   float * sum_weight,
@@ -563,6 +568,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
                                   float * sum_g,
                                   float * sum_b,
                                   float * sum_a,
+                                  float * avg_spectral,
                                   float paint,
                                   uint16_t sample_interval,
                                   float random_sample_rate
@@ -579,11 +585,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
   // Average the results normally
   // Only sample a partially random subset of pixels
 
-  float avg_spectral[10] = {0};
   float avg_rgb[3] = {*sum_r, *sum_g, *sum_b};
-  if (paint > 0.0f) {
-    rgb_to_spectral(*sum_r, *sum_g, *sum_b, avg_spectral);
-  }
 
   // Rolling counter determining which pixels to sample
   // This sampling _is_ biased (but hopefully not too bad).
@@ -628,12 +630,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
     rgba += mask[1];
     mask += 2;
   }
-  // Convert the spectral average to rgb and write the result
-  // back weighted with the rgb average.
-  float spec_rgb[3] = {0};
-  spectral_to_rgb(avg_spectral, spec_rgb);
-
-  *sum_r = spec_rgb[0] * paint + (1.0 - paint) * avg_rgb[0];
-  *sum_g = spec_rgb[1] * paint + (1.0 - paint) * avg_rgb[1];
-  *sum_b = spec_rgb[2] * paint + (1.0 - paint) * avg_rgb[2];
+  *sum_r = avg_rgb[0];
+  *sum_g = avg_rgb[1];
+  *sum_b = avg_rgb[2];
 };
diff --git a/brushmodes.h b/brushmodes.h
index 1ed1f6a..069b6a2 100644
--- a/brushmodes.h
+++ b/brushmodes.h
@@ -66,6 +66,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
                                   float * sum_g,
                                   float * sum_b,
                                   float * sum_a,
+                                  float * avg_spectral,
                                   float paint,
                                   uint16_t sample_interval,
                                   float random_sample_rate
diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 22b123a..17768d1 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -817,6 +817,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
 
     float sum_weight, sum_r, sum_g, sum_b, sum_a;
     sum_weight = sum_r = sum_g = sum_b = sum_a = 0.0f;
+    float avg_spectral[10] = {0};
 
     // in case we return with an error
     *color_r = 0.0f;
@@ -890,7 +891,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
         #pragma omp critical
         {
         get_color_pixels_accumulate (
-          mask, rgba_p, &sum_weight, &sum_r, &sum_g, &sum_b, &sum_a, paint,
+          mask, rgba_p, &sum_weight, &sum_r, &sum_g, &sum_b, &sum_a, avg_spectral, paint,
           sample_interval, random_sample_rate);
         }
 
@@ -907,6 +908,14 @@ void get_color (MyPaintSurface *surface, float x, float y,
         sum_r /= sum_weight;
         sum_g /= sum_weight;
         sum_b /= sum_weight;
+    } else if (paint > 0.0) {
+        // Convert the spectral average to rgb and
+        // weight the result with the rgb average.
+        float spec_rgb[3] = {0};
+        spectral_to_rgb(avg_spectral, spec_rgb);
+        sum_r = spec_rgb[0] * paint + (1.0 - paint) * sum_r;
+        sum_g = spec_rgb[1] * paint + (1.0 - paint) * sum_g;
+        sum_b = spec_rgb[2] * paint + (1.0 - paint) * sum_b;
     }
 
     *color_a = CLAMP(sum_a, 0.0f, 1.0f);
-- 
2.43.0


From 9b3fd7ef921a2b3e93e99b4a8bed603b7ea64885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 10/43] fix: a tile the backend cannot supply left its request
 open and the tile unpaintable, or aborted a color pick

---
 mypaint-tiled-surface.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 17768d1..75f23a8 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,13 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // Drop the operations, or they would keep the tile from being
+        // queued as dirty again.
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
+        mypaint_tiled_surface_tile_request_end(self, &request_data);
         return;
     }
 
@@ -823,6 +830,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     *color_r = 0.0f;
     *color_g = 1.0f;
     *color_b = 0.0f;
+    *color_a = 0.0f;
 
     // WARNING: some code duplication with draw_dab
 
@@ -872,7 +880,8 @@ void get_color (MyPaintSurface *surface, float x, float y,
         uint16_t * rgba_p = request_data.buffer;
         if (!rgba_p) {
           printf("Warning: Unable to get tile!\n");
-          break;
+          mypaint_tiled_surface_tile_request_end(self, &request_data);
+          continue;
         }
 
         // first, we calculate the mask (opacity for each pixel)
@@ -899,7 +908,10 @@ void get_color (MyPaintSurface *surface, float x, float y,
       }
     }
 
-    assert(sum_weight > 0.0f);
+    // Happens if none of the tiles could be fetched
+    if (!(sum_weight > 0.0f)) {
+        return;
+    }
     sum_a /= sum_weight;
 
     // For legacy sampling, we need to divide
-- 
2.43.0


From 89103992bf610733c46d3e86817b07e57cf468e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 11/43] fix: color picks with several threads depended on
 thread scheduling

---
 mypaint-tiled-surface.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 75f23a8..218dfa5 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -865,7 +865,9 @@ void get_color (MyPaintSurface *surface, float x, float y,
     const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
     const float random_sample_rate = 1.0f / (7 * radius);
 
-    #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
+    // The tiles are accumulated in order, so that rounding errors and the
+    // pixels chosen at random do not depend on thread scheduling.
+    #pragma omp parallel for collapse(2) ordered schedule(static, 1) if(self->threadsafe_tile_requests && tiles_n > 3)
     for (int ty = ty1; ty <= ty2; ty++) {
       for (int tx = tx1; tx <= tx2; tx++) {
 
@@ -896,8 +898,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
                         aspect_ratio, angle
                         );
 
-        // TODO: try atomic operations instead
-        #pragma omp critical
+        #pragma omp ordered
         {
         get_color_pixels_accumulate (
           mask, rgba_p, &sum_weight, &sum_r, &sum_g, &sum_b, &sum_a, avg_spectral, paint,
-- 
2.43.0


From d61dbe08b52a64b559d5a6d78b208c0b6a175f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 12/43] fix: snowflake symmetry wrote past the bounding boxes
 when there are fewer boxes than dabs

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 218dfa5..1754137 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -770,7 +770,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From 421a032e6d9da21d320f05f4e69236be77cb1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 13/43] fix: symmetry stayed off after a failed allocation when
 returning to the previous state

---
 mypaint-symmetry.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mypaint-symmetry.c b/mypaint-symmetry.c
index 76c870e..34ae0d8 100644
--- a/mypaint-symmetry.c
+++ b/mypaint-symmetry.c
@@ -73,7 +73,12 @@ mypaint_update_symmetry_state(MyPaintSymmetryData* const self)
     const int required = num_matrices_required(&self->state_pending);
     if (self->num_symmetry_matrices < required) {
         // Try to allocate space for matrices, skip recalculations if it fails
-        if (!allocate_symmetry_matrices(self, required)) return;
+        if (!allocate_symmetry_matrices(self, required)) {
+            // No state is in effect now, so that returning to
+            // the previous one is not mistaken for no change.
+            self->state_current.type = -1;
+            return;
+        }
     }
     const MyPaintSymmetryState symm = self->state_pending;
     self->state_current = symm;
-- 
2.43.0


From 9e807a1e929e61350b94653a7b213105baf450c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 14/43] fix: leak and missing check when a fixed tiled surface
 cannot be allocated

---
 mypaint-fixed-tiled-surface.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..85d36d8 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -100,6 +100,9 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(height > 0);
 
     MyPaintFixedTiledSurface *self = (MyPaintFixedTiledSurface *)malloc(sizeof(MyPaintFixedTiledSurface));
+    if (!self) {
+        return NULL;
+    }
 
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
 
@@ -118,8 +121,12 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(buffer_size >= width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
-    if (!buffer) {
+    uint16_t * null_tile = (uint16_t *)malloc(tile_size);
+    if (!buffer || !null_tile) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        free(buffer);
+        free(null_tile);
+        mypaint_tiled_surface_destroy(&self->parent);
         free(self);
         return NULL;
     }
@@ -127,7 +134,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-    self->null_tile = (uint16_t *)malloc(tile_size);
+    self->null_tile = null_tile;
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 001c0f96488463377aa3a782566e36ffbcffc451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 15/43] fix: new fixed tiled surfaces were filled with out of
 range values

---
 mypaint-fixed-tiled-surface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 85d36d8..0f5f71c 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -130,7 +130,10 @@ mypaint_fixed_tiled_surface_new(int width, int height)
         free(self);
         return NULL;
     }
-    memset(buffer, 255, buffer_size);
+    // Opaque white, in 15 bit fixed point
+    for (size_t i = 0; i < buffer_size / sizeof(uint16_t); ++i) {
+        buffer[i] = 1 << 15;
+    }
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-- 
2.43.0


From 0ba5ade9bc73fde4dcc68c4d3e903a7d5df58d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 16/43] fix: reset did not clear the smudge buckets that were
 used

---
 mypaint-brush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 426b53f..abaaf9d 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
@@ -208,6 +208,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
-- 
2.43.0


From b1bd6d6c50966ace4b802245e4ae7d081fb4acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 17/43] fix: smudge bucket state access used the wrong bucket
 and accepted negative indices

---
 mypaint-brush.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index abaaf9d..131853a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -445,6 +445,19 @@ mypaint_brush_set_state(MyPaintBrush *self, MyPaintBrushState i, float value)
     assert (i < MYPAINT_BRUSH_STATES_COUNT);
     self->states[i] = value;
 }
+
+// Keep track of the range of buckets that need to be cleared on reset
+static void
+mark_smudge_bucket_used(MyPaintBrush *self, int bucket_index)
+{
+  if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+    self->min_bucket_used = bucket_index;
+  }
+  if (self->max_bucket_used < bucket_index) {
+    self->max_bucket_used = bucket_index;
+  }
+}
+
 /**
  * mypaint_brush_set_smudge_bucket_state: (skip)
  *
@@ -461,8 +474,8 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -472,6 +485,7 @@ mypaint_brush_set_smudge_bucket_state(
     bucket[PREV_COL_B] = prev_b;
     bucket[PREV_COL_A] = prev_a;
     bucket[PREV_COL_RECENTNESS] = prev_color_recentness;
+    mark_smudge_bucket_used(self, bucket_index);
     return TRUE;
   }
   return FALSE;
@@ -493,8 +507,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
@@ -910,12 +924,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       return &STATE(self, SMUDGE_RA);
     }
     const int bucket_index = CLAMP(roundf(SETTING(self, SMUDGE_BUCKET)), 0, self->num_buckets - 1);
-    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
-      self->min_bucket_used = bucket_index;
-    }
-    if (self->max_bucket_used < bucket_index) {
-      self->max_bucket_used = bucket_index;
-    }
+    mark_smudge_bucket_used(self, bucket_index);
     return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
   }
 
-- 
2.43.0


From c51ac096d574b4ba7397d670c524192bf2782b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 18/43] fix: grid map used uninitialized setting values on new
 brushes and stale ones after a reset

---
 mypaint-brush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 131853a..9a285d2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -153,6 +153,10 @@ brush_reset(MyPaintBrush *self)
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
+    // Some setting values are used before they are calculated for the first time
+    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
+      self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
+    }
     // Clear smudge buckets
     if (self->smudge_buckets) {
       int min_index = self->min_bucket_used;
-- 
2.43.0


From 3eeb0c559cde921bb6d9f30b25821320fe7c4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 19/43] fix: slow tracking pulled the start of a stroke towards
 the position before the reset

---
 mypaint-brush.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9a285d2..43046cf 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1407,9 +1407,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
 
-      const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
-      x = STATE(self, X) + (x - STATE(self, X)) * fac;
-      y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      // there is no earlier position to filter with when starting anew
+      if (!(dtime > max_dtime || self->reset_requested)) {
+        const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+        x = STATE(self, X) + (x - STATE(self, X)) * fac;
+        y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      }
     }
 
     if (dtime > max_dtime || self->reset_requested) {
-- 
2.43.0


From 9394f5ea40a6d782109d5204905032204e833218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 20/43] fix: what follows a reset depended on the pressure
 before the reset

---
 mypaint-brush.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 43046cf..06f4901 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1360,7 +1360,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
     if (dtime <= 0) dtime = 0.0001; // protect against possible division by zero bugs
 
-    if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
+    if (dtime > max_dtime) {
+      // long pause, decided here since the workaround below takes off some time
+      self->reset_requested = TRUE;
+    }
+
+    if (dtime > 0.100 && pressure && (STATE(self, PRESSURE) == 0 || self->reset_requested)) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
       mypaint_brush_stroke_to (self, surface, x, y, 0.0, 90.0, 0.0, dtime-0.0001, viewzoom, viewrotation, 0.0, linear);
-- 
2.43.0


From 2520f2978e45edcb79a89b4d0adb28d3182c15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 21/43] fix: division by a zero view zoom after ignoring insane
 coordinates

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 06f4901..1cd5bd2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1350,7 +1350,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0;
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
-- 
2.43.0


From 89ca15e967bc1dec0dc281a290ed9d29b80ee026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 22/43] fix: coordinates between 1e8 and 1e10 aborted instead
 of being ignored

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 1cd5bd2..c556a12 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1344,7 +1344,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     if (pressure <= 0.0) pressure = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
-        (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
+        !(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
       printf("Warning: ignoring brush::stroke_to with insane inputs (x = %f, y = %f)\n", (double)x, (double)y);
       x = 0.0;
-- 
2.43.0


From b39df53aa13875c6a1deddba262d096b1a9159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 23/43] fix: barrel rotation input left its documented range of
 -180 to 180 degrees

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index c556a12..4c14a67 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -829,7 +829,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     INPUT(TILT_DECLINATIONY) = STATE(self, DECLINATIONY);
 
     INPUT(CUSTOM) = STATE(self, CUSTOM_INPUT);
-    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION), 360);
+    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION) + 180.0, 360.0) - 180.0;
 
     if (self->print_inputs) {
         print_inputs(self, inputs);
-- 
2.43.0


From ab6e3a4e8642847d12664f93e90cdf55db93e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 24/43] fix: endless loop when dab steps vanish in the rounding
 of large coordinates

---
 mypaint-brush.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 4c14a67..ad3c2ad 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1453,6 +1453,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     float dabs_moved = STATE(self, PARTIAL_DABS);
     float dabs_todo = count_dabs_to (self, x, y, dtime);
     while (dabs_moved + dabs_todo >= 1.0) { // there are dabs pending
+      const float old_x = STATE(self, X);
+      const float old_y = STATE(self, Y);
       { // linear interpolation (nonlinear variant was too slow, see SVN log)
         float frac; // fraction of the remaining distance to move
         if (dabs_moved > 0) {
@@ -1496,6 +1498,15 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
       dtime_left -= step_dtime;
       dabs_todo = count_dabs_to(self, x, y, dtime_left);
+
+      if (step_ddab == 1.0 && STATE(self, X) == old_x && STATE(self, Y) == old_y &&
+          count_dabs_to(self, x, y, 0.0) >= 1.0) {
+        // The steps are too small to make a difference to such large
+        // coordinates, going on like this would never reach the target.
+        dabs_moved = 0;
+        dabs_todo = 0;
+        break;
+      }
     }
 
     {
-- 
2.43.0


From 390719601190189c59cf3dd6d11f2a33df049064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 25/43] fix: loading malformed brush settings crashed or left
 unusable values

---
 mypaint-brush.c | 61 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ad3c2ad..e663c06 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1597,6 +1597,38 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// Returns FALSE if there is no such point, or if it is not a finite pair
+static gboolean
+get_mapping_point(json_object *points, int index, float *x, float *y)
+{
+    json_object *point = json_object_array_get_idx(points, index);
+    if (!json_object_is_type(point, json_type_array) || json_object_array_length(point) < 2) {
+        return FALSE;
+    }
+    *x = json_object_get_double(json_object_array_get_idx(point, 0));
+    *y = json_object_get_double(json_object_array_get_idx(point, 1));
+    return isfinite(*x) && isfinite(*y);
+}
+
+// The mapping functions assert these conditions
+static gboolean
+mapping_points_are_valid(json_object *points)
+{
+    const int n = json_object_array_length(points);
+    if (n == 1 || n > 64) {
+        return FALSE;
+    }
+    float previous_x = 0.0;
+    for (int i = 0; i < n; i++) {
+        float x, y;
+        if (!get_mapping_point(points, i, &x, &y) || (i > 0 && x < previous_x)) {
+            return FALSE;
+        }
+        previous_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1621,7 +1653,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'base_value' field for setting: %s\n", setting_name);
         return FALSE;
     }
-    const double base_value = json_object_get_double(base_value_obj);
+    const float base_value = json_object_get_double(base_value_obj);
+    if (!isfinite(base_value)) {
+        fprintf(stderr, "Warning: Invalid 'base_value' for setting: %s\n", setting_name);
+        return FALSE;
+    }
     mypaint_brush_set_base_value(self, setting_id, base_value);
 
     // Inputs
@@ -1630,6 +1666,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong inputs type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1644,18 +1684,19 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
+        if (!mapping_points_are_valid(input_obj)) {
+            fprintf(stderr, "Warning: Invalid mapping points for input: %s, setting: %s\n",
+                    input_name, setting_name);
+            return FALSE;
+        }
+
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
 
         for (int i=0; i<number_of_mapping_points; i++) {
-            json_object *mapping_point = json_object_array_get_idx(input_obj, i);
-
-            json_object *x_obj = json_object_array_get_idx(mapping_point, 0);
-            const float x = json_object_get_double(x_obj);
-            json_object *y_obj = json_object_array_get_idx(mapping_point, 1);
-            const float y = json_object_get_double(y_obj);
-
+            float x, y;
+            get_mapping_point(input_obj, i, &x, &y);
             mypaint_brush_set_mapping_point(self, setting_id, input_id, i, x, y);
         }
     }
@@ -1684,6 +1725,10 @@ update_brush_from_json_object(MyPaintBrush *self)
         fprintf(stderr, "Error: No 'settings' field for brush\n");
         return FALSE;
     }
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type of 'settings' field for brush\n");
+        return FALSE;
+    }
 
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
-- 
2.43.0


From 4b42e52453bab1c8750fdb974c1d23365d8af2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 26/43] fix: painting on a buffer supplied to the GEGL surface
 shrank its extent

---
 gegl/mypaint-gegl-surface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 0057d42..738a596 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -194,6 +194,8 @@ mypaint_gegl_tiled_surface_set_buffer(MyPaintGeglTiledSurface *self, GeglBuffer
         g_return_if_fail(GEGL_IS_BUFFER(buffer));
         g_object_ref(buffer);
         self->buffer = buffer;
+        // Otherwise the first tile request would shrink the buffer
+        gegl_rectangle_copy(&self->extent_rect, gegl_buffer_get_extent(buffer));
     } else {
         // Using GeglBuffer with aligned tiles for zero-copy access
         self->buffer = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER,
-- 
2.43.0


From 5c0c1b4d49b84910e9f5364000677363f502efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 27/43] fix: picking a color from a non-native GEGL buffer
 rewrote its pixels

---
 gegl/mypaint-gegl-surface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 738a596..312a0c3 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -133,14 +133,16 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
             request->context = NULL;
         }
     } else {
-        // Push our linear buffer back into the GeglBuffer
-        const int tile_size = tiled_surface->tile_size;
-        GeglRectangle tile_bbox;
-
         g_assert(request->buffer);
-        gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
-        gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
-                        request->buffer, GEGL_AUTO_ROWSTRIDE);
+        if (!request->readonly) {
+            // Push our linear buffer back into the GeglBuffer
+            const int tile_size = tiled_surface->tile_size;
+            GeglRectangle tile_bbox;
+
+            gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
+            gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
+                            request->buffer, GEGL_AUTO_ROWSTRIDE);
+        }
         gegl_free(request->buffer);
     }
 
-- 
2.43.0


From b5edeb0f7f2f8c4a4adb2342bd75b236c4be9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 28/43] fix: extreme grid map scales made the inputs and then
 the dabs not-a-number

---
 mypaint-brush.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index e663c06..65f7af4 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -757,6 +757,9 @@ void print_inputs(MyPaintBrush *self, float* inputs)
         const float scaled_size = scale * GRID_SIZE;
         STATE(self, GRIDMAP_X) = mod_arith(fabsf(x * scale_x), scaled_size) / scaled_size * GRID_SIZE;
         STATE(self, GRIDMAP_Y) = mod_arith(fabsf(y * scale_y), scaled_size) / scaled_size * GRID_SIZE;
+        // Sanity check - dynamics can easily make the logarithmic scale vanish or infinite
+        if (!isfinite(STATE(self, GRIDMAP_X))) STATE(self, GRIDMAP_X) = 0.0;
+        if (!isfinite(STATE(self, GRIDMAP_Y))) STATE(self, GRIDMAP_Y) = 0.0;
         if (x < 0.0) {
             STATE(self, GRIDMAP_X) = GRID_SIZE - STATE(self, GRIDMAP_X);
         }
-- 
2.43.0


From 22f442d6999a2fe12c4cecf40d688ed56b341b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 29/43] fix: a custom input feeding back on itself made all
 dabs not-a-number

---
 mypaint-brush.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 65f7af4..7468da2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -839,7 +839,9 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     }
 
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
-      self->settings_value[i] = mypaint_mapping_calculate(self->settings[i], (inputs));
+      const float value = mypaint_mapping_calculate(self->settings[i], (inputs));
+      // Sanity check - the custom input can run away when its setting feeds back on it
+      self->settings_value[i] = isfinite(value) ? value : mypaint_mapping_get_base_value(self->settings[i]);
     }
 
     STATE(self, DABS_PER_BASIC_RADIUS) = SETTING(self, DABS_PER_BASIC_RADIUS);
@@ -897,6 +899,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     { // custom input
       const float fac = 1.0 - exp_decay (SETTING(self, CUSTOM_INPUT_SLOWNESS), 0.1);
       STATE(self, CUSTOM_INPUT) += (SETTING(self, CUSTOM_INPUT) - STATE(self, CUSTOM_INPUT)) * fac;
+      if (!isfinite(STATE(self, CUSTOM_INPUT))) STATE(self, CUSTOM_INPUT) = 0.0;
     }
 
     { // stroke length
-- 
2.43.0


From 749114f97767c8977cfcd156740a9b277a057336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 30/43] fix: offset multipliers that overflow with the radius
 made dab positions not-a-number

---
 mypaint-brush.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 7468da2..f559bfb 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -606,9 +606,9 @@ typedef struct {
 Offsets
 directional_offsets(const MyPaintBrush* const self, const float base_radius, const int brush_flip)
 {
-    const float offset_mult = expf(SETTING(self, OFFSET_MULTIPLIER));
+    const float base_mul = base_radius * expf(SETTING(self, OFFSET_MULTIPLIER));
     // Sanity check - it is easy to reach infinite multipliers w. logarithmic parameters
-    if (!isfinite(offset_mult)) {
+    if (!isfinite(base_mul)) {
         Offsets offs = {0.0f, 0.0f};
         return offs;
     }
@@ -678,7 +678,6 @@ directional_offsets(const MyPaintBrush* const self, const float base_radius, con
     // Clamp the final offsets to avoid potential memory issues (extreme memory use from redraws)
     // Allow offsets up to the 1080 * 3 pixels. Unlikely to hamper anyone artistically.
     const float lim = 3240;
-    const float base_mul = base_radius * offset_mult;
     Offsets offs = {CLAMP(dx * base_mul, -lim, lim),  CLAMP(dy * base_mul, -lim, lim)};
     return offs;
 }
-- 
2.43.0


From 5da74cb1e9f7f27bde26721fd795c84b7c87df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 31/43] fix: offsets could send dabs to positions beyond the
 accepted coordinates

---
 mypaint-brush.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index f559bfb..096cc73 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1128,6 +1128,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
     }
 
+    // Offsets can displace the dab arbitrarily far; don't go beyond what
+    // stroke_to() accepts, the surfaces can't deal with such positions.
+    if (!(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8)) {
+        return FALSE;
+    }
+
     // dynamics can push the value out of range; below zero would select the
     // legacy color sampling, and colors would be extrapolated instead of mixed
     const float paint_factor = CLAMP(SETTING(self, PAINT_MODE), 0.0, 1.0);
-- 
2.43.0


From 849ac27407e342bb5588812b508a320f8d0178f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 32/43] fix: a pressure that is not a number stuck in the brush
 state

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 096cc73..d07bd4e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1353,7 +1353,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       assert(isfinite(tilt_declinationy));
     }
 
-    if (pressure <= 0.0) pressure = 0.0;
+    if (!isfinite(pressure) || pressure <= 0.0) pressure = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
         !(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
-- 
2.43.0


From 9a8e907fcf073d01cc9c52f2f7dbfb1accd1b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 33/43] fix: extreme stroke durations made the stroke input
 not-a-number

---
 mypaint-brush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index d07bd4e..0f15145 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -903,7 +903,9 @@ void print_inputs(MyPaintBrush *self, float* inputs)
 
     { // stroke length
       const float frequency = expf(-SETTING(self, STROKE_DURATION_LOGARITHMIC));
-      const float stroke = MAX(0, STATE(self, STROKE) + norm_dist * frequency);
+      float stroke = MAX(0, STATE(self, STROKE) + norm_dist * frequency);
+      // Sanity check - dynamics can easily make the logarithmic duration infinitely short
+      if (!isfinite(stroke)) stroke = STATE(self, STROKE);
       const float wrap = 1.0 + MAX(0, SETTING(self, STROKE_HOLDTIME));
       // If the hold time is above 9.9, it is considered infinite, and if the stroke value has reached
       // that threshold it is no longer updated (until the stroke is reset, or the hold time changes).
-- 
2.43.0


From 0c4eec16c69ba61a1e9c379e67f6f3fe1c4bef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 34/43] fix: snapping above one threw dabs away from the pixel
 instead of onto it

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0f15145..b061f34 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1245,7 +1245,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     }
 
     // snap to pixel
-    float snapToPixel = SETTING(self, SNAP_TO_PIXEL);
+    const float snapToPixel = MIN(1.0, SETTING(self, SNAP_TO_PIXEL));
     if (snapToPixel > 0.0)
     {
       // linear interpolation between non-snapped and snapped
-- 
2.43.0


From 7470d2d585205c227cb777c774d9f567fdc705dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 35/43] fix: very small anti-aliasing made the radius of hard
 dabs inexact or infinite

---
 mypaint-brush.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index b061f34..a2b2233 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1237,8 +1237,9 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       //
       // Solved Equation 1 for hardness_new, using Equation 2: (thanks to mathomatic)
       float hardness_new = ((current_optical_radius - (min_fadeout_in_pixels/2.0))/(current_optical_radius + (min_fadeout_in_pixels/2.0)));
-      // Using Equation 1:
-      float radius_new = (min_fadeout_in_pixels/(1.0 - hardness_new));
+      // Both equations together (dividing by 1.0 - hardness_new instead would
+      // be inexact, or a division by zero, when the fadeout is small):
+      float radius_new = current_optical_radius + min_fadeout_in_pixels/2.0;
 
       hardness = hardness_new;
       radius = radius_new;
-- 
2.43.0


From 7bc0fd29b752cc346106b51e94c4bf19b564f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:15 +0000
Subject: [PATCH 36/43] fix: without tilt the X and Y declination inputs
 reported a stylus lying flat

---
 mypaint-brush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index a2b2233..a832e1b 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1336,8 +1336,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     float tilt_ascension = 0.0;
     float tilt_declination = 90.0;
-    float tilt_declinationx = 90.0;
-    float tilt_declinationy = 90.0;
+    float tilt_declinationx = 0.0;
+    float tilt_declinationy = 0.0;
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
       xtilt = CLAMP(xtilt, -1.0, 1.0);
-- 
2.43.0


From 11c0b1950ab4a3eaf0f24fca0fe0d7c288f691d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 37/43] fix: smudging picked up colors one pixel off at
 negative coordinates

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index a832e1b..4c8a083 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1155,7 +1155,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (SETTING(self, SMUDGE) != 0.0 || !mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_SMUDGE]))) {
         float* const bucket = fetch_smudge_bucket(self);
         gboolean return_early = update_smudge_color(
-            self, surface, bucket, smudge_length, ROUND(x), ROUND(y), radius, legacy_smudge, paint_factor);
+            self, surface, bucket, smudge_length, (int)floor(x + 0.5), (int)floor(y + 0.5), radius, legacy_smudge, paint_factor);
         if (return_early) {
           return FALSE;
         }
-- 
2.43.0


From 16d51bfb1c4e5aa17a70c8cfa1a965ff6079973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 38/43] fix: dabs suppressed by the smudge transparency limit
 left an invalid color that later dabs smudged with

---
 mypaint-brush.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 4c8a083..8be95ed 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -957,7 +957,6 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       const float smudge_length_log = SETTING(self, SMUDGE_LENGTH_LOG);
 
       const float recentness = smudge_bucket[PREV_COL_RECENTNESS] * update_factor;
-      smudge_bucket[PREV_COL_RECENTNESS] = recentness;
 
       const float margin = 0.0000000000000001;
       if (recentness < MIN(1.0, powf(0.5 * update_factor, smudge_length_log) + margin)) {
@@ -965,7 +964,6 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               // first initialization of smudge color (initiate with color sampled from canvas)
               update_factor = 0.0;
           }
-          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
 
           const float radius_log = SETTING(self, SMUDGE_RADIUS_LOG);
           const float smudge_radius = CLAMP(radius * expf(radius_log), ACTUAL_RADIUS_MIN, ACTUAL_RADIUS_MAX);
@@ -980,13 +978,16 @@ void print_inputs(MyPaintBrush *self, float* inputs)
           // negative values reverse this idea
           const float smudge_op_lim = SETTING(self, SMUDGE_TRANSPARENCY);
           if ((smudge_op_lim > 0.0 && a < smudge_op_lim) || (smudge_op_lim < 0.0 && a > -smudge_op_lim)) {
+              // not counted as a recent color, the next dab has to sample again
               return TRUE; // signals the caller to return early
           }
+          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
           smudge_bucket[PREV_COL_R] = r;
           smudge_bucket[PREV_COL_G] = g;
           smudge_bucket[PREV_COL_B] = b;
           smudge_bucket[PREV_COL_A] = a;
       } else {
+          smudge_bucket[PREV_COL_RECENTNESS] = recentness;
           r = smudge_bucket[PREV_COL_R];
           g = smudge_bucket[PREV_COL_G];
           b = smudge_bucket[PREV_COL_B];
-- 
2.43.0


From a9fb2f18dc87e48850013d163e1f132487e01b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:43 +0000
Subject: [PATCH 39/43] fix: crash when a brush cannot be allocated completely

---
 mypaint-brush.c   |  9 +++++++++
 mypaint-mapping.c | 10 ++++++++++
 rng-double.c      |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 8be95ed..ab50b9a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -170,6 +170,8 @@ brush_reset(MyPaintBrush *self)
     }
 }
 
+void brush_free(MyPaintBrush *self);
+
 /**
   * mypaint_brush_new:
   *
@@ -217,10 +219,17 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     }
 
     self->refcount = 1;
+    self->brush_json = NULL;
+    gboolean allocated = TRUE;
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
+      allocated = allocated && self->settings[i];
     }
     self->rng = rng_double_new(1000);
+    if (!allocated || !self->rng) {
+      brush_free(self);
+      return NULL;
+    }
     self->random_input = 0;
     self->print_inputs = FALSE;
 
diff --git a/mypaint-mapping.c b/mypaint-mapping.c
index 347d0fe..b7f5abf 100644
--- a/mypaint-mapping.c
+++ b/mypaint-mapping.c
@@ -54,9 +54,16 @@ MyPaintMapping *
 mypaint_mapping_new(int inputs_)
 {
     MyPaintMapping *self = (MyPaintMapping *)malloc(sizeof(MyPaintMapping));
+    if (!self) {
+        return NULL;
+    }
 
     self->inputs = inputs_;
     self->pointsList = (ControlPoints *)malloc(sizeof(ControlPoints)*self->inputs);
+    if (!self->pointsList) {
+        free(self);
+        return NULL;
+    }
     int i = 0;
     for (i=0; i<self->inputs; i++) self->pointsList[i].n = 0;
 
@@ -69,6 +76,9 @@ mypaint_mapping_new(int inputs_)
 void
 mypaint_mapping_free(MyPaintMapping *self)
 {
+    if (!self) {
+        return;
+    }
     free(self->pointsList);
     free(self);
 }
diff --git a/rng-double.c b/rng-double.c
index be79683..bcdea76 100644
--- a/rng-double.c
+++ b/rng-double.c
@@ -72,6 +72,9 @@ RngDouble *
 rng_double_new(long seed)
 {
   RngDouble *self = (RngDouble *)malloc(sizeof(RngDouble));
+  if (!self) {
+    return NULL;
+  }
 
   self->ranf_arr_ptr=(double *)&ranf_arr_dummy;
 
-- 
2.43.0


From a06f012cd0b3671781d7cea29350c30ef1d15383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:22 +0000
Subject: [PATCH 40/43] fix: copies of boxed brushes and surfaces were garbage
 pointers

g_boxed_copy() returns what the copy function returns; the reference
functions return nothing.
---
 glib/mypaint-brush.c     | 21 ++++++++++++++++++---
 glib/mypaint-gegl-glib.c | 10 +++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index d351c68..21c88e9 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -3,6 +3,21 @@
 
 #include <glib-object.h>
 
+// A boxed copy is another reference; the copy function must return it
+static gpointer
+brush_boxed_copy (gpointer brush)
+{
+    mypaint_brush_ref((MyPaintBrush *) brush);
+    return brush;
+}
+
+static gpointer
+surface_boxed_copy (gpointer surface)
+{
+    mypaint_surface_ref((MyPaintSurface *) surface);
+    return surface;
+}
+
 GType
 mypaint_brush_get_type (void)
 {
@@ -10,7 +25,7 @@ mypaint_brush_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintBrush",
-                                            (GBoxedCopyFunc) mypaint_brush_ref,
+                                            (GBoxedCopyFunc) brush_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_brush_unref);
     }
 
@@ -24,7 +39,7 @@ mypaint_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            (GBoxedCopyFunc) surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
@@ -38,7 +53,7 @@ mypaint_fixed_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            (GBoxedCopyFunc) surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 09ac3cb..f4b63f8 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -8,6 +8,14 @@
 
 #include "mypaint-surface.h"
 
+// A boxed copy is another reference; the copy function must return it
+static gpointer
+surface_boxed_copy (gpointer surface)
+{
+    mypaint_surface_ref((MyPaintSurface *) surface);
+    return surface;
+}
+
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
@@ -15,7 +23,7 @@ mypaint_gegl_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            (GBoxedCopyFunc) surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
-- 
2.43.0


From f99b68398f8af59226237eede9a1e157b7ed895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:22 +0000
Subject: [PATCH 41/43] fix: saving a picture of a GEGL surface ignored the
 requested area

---
 gegl/mypaint-gegl-surface.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 312a0c3..c3d26c8 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -154,15 +154,24 @@ save_png(MyPaintSurface *surface, const char *path,
 {
     MyPaintGeglTiledSurface *self = (MyPaintGeglTiledSurface *)surface;
     GeglNode *graph, *save, *source;
+    GeglBuffer *buffer = mypaint_gegl_tiled_surface_get_buffer(self);
+
+    // A negative size stands for the whole surface
+    if (width > 0 && height > 0) {
+        buffer = gegl_buffer_create_sub_buffer(buffer, GEGL_RECTANGLE(x, y, width, height));
+    } else {
+        g_object_ref(buffer);
+    }
 
     graph = gegl_node_new();
     source = gegl_node_new_child(graph, "operation", "gegl:buffer-source",
-                                 "buffer", mypaint_gegl_tiled_surface_get_buffer(self), NULL);
+                                 "buffer", buffer, NULL);
     save = gegl_node_new_child(graph, "operation", "gegl:png-save", "path", path, NULL);
     gegl_node_link(source, save);
 
     gegl_node_process(save);
     g_object_unref(graph);
+    g_object_unref(buffer);
 }
 
 /**
-- 
2.43.0


From e6884f3b980ec4d701ae7c713d9e75c9222cd253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:22 +0000
Subject: [PATCH 42/43] fix: saving a picture of a surface that cannot do it
 jumped to a random address

Only surfaces initialised with zeros had no save_png function.
---
 mypaint-tiled-surface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 1754137..7c47603 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -964,6 +964,8 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->parent.get_color = get_color;
     self->parent.begin_atomic = begin_atomic_default;
     self->parent.end_atomic = end_atomic_default;
+    // Optional, set by the surfaces which can do it
+    self->parent.save_png = NULL;
 
     self->tile_request_end = tile_request_end;
     self->tile_request_start = tile_request_start;
-- 
2.43.0


From a57344e2044ce2fac37de159ffe822ea56ec1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:27 +0000
Subject: [PATCH 43/43] fix: division by zero when picking a color with a
 radius of 9363 pixels

The interval between sampled pixels was truncated to 16 bits.
---
 brushmodes.c | 4 ++--
 brushmodes.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index 44be24c..8fb4289 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -570,7 +570,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
                                   float * sum_a,
                                   float * avg_spectral,
                                   float paint,
-                                  uint16_t sample_interval,
+                                  uint32_t sample_interval,
                                   float random_sample_rate
                                   ) {
   // Fall back to legacy sampling if using static 0 paint setting
@@ -591,7 +591,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
   // This sampling _is_ biased (but hopefully not too bad).
   // Ideally, the selection of pixels to be sampled should
   // be determined before this function is called.
-  uint16_t interval_counter = 0;
+  uint32_t interval_counter = 0;
   const int random_sample_threshold = (int)(random_sample_rate * RAND_MAX);
 
   while (1) {
diff --git a/brushmodes.h b/brushmodes.h
index 069b6a2..6bc4c3f 100644
--- a/brushmodes.h
+++ b/brushmodes.h
@@ -68,7 +68,7 @@ void get_color_pixels_accumulate (uint16_t * mask,
                                   float * sum_a,
                                   float * avg_spectral,
                                   float paint,
-                                  uint16_t sample_interval,
+                                  uint32_t sample_interval,
                                   float random_sample_rate
                                   );
 
-- 
2.43.0

