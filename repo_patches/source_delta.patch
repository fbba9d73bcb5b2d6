From 61f4729f909ba0eae9aa57ed9985d5923f643d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 01/33] fix: replace or remove an existing registration when a
 status report callback is registered again

Registering with a NULL callback linked the node anyway and the next report
called through NULL, although the header promises that it deregisters the
prior callback.  Registering a node that was already in the list cut off the
callbacks after it or linked the last node to itself.
---
 src/subsystem_status_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..063042f 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,6 +20,12 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  swiftnav_subsystem_status_report_callback_deregister(callback_node);
+
+  if (callback == NULL) {
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
   callback_node->next = NULL;
-- 
2.43.0


From d240e8db9ae0f78246b225e2d13fdc75d797bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 02/33] fix: remove_element removes the last element when the
 given one is larger than all

The insertion index then equals the number of elements and na - index - 1
underflowed, so that memcpy was asked for about 4 GB (elements of one byte)
or more.  An empty set is left alone.
---
 src/set.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..b2d15cb 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,6 +227,13 @@ u32 remove_element(
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
 
+  if (na == 0) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
+
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
          (const char *)as + (index + 1) * sa,
-- 
2.43.0


From 8cd82a0aa2b31679a01114177a10eaa96d7d1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 03/33] fix: bit and byte stream bounds tests hold for
 positions near 2^32

offset + position + length was summed in 32 bits, so a large position or
length wrapped around and passed the test, and consuming past the end could
wrap the offset back inside the data.
---
 include/swiftnav/bitstream.h  | 10 ++++++----
 include/swiftnav/bytestream.h |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..b691d07 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((uint64_t)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -75,7 +75,8 @@ static inline bool swiftnav_in_bitstream_getbitsl(
 
 static inline void swiftnav_in_bitstream_remove(swiftnav_in_bitstream_t *buf,
                                                 u32 len) {
-  buf->offset += len;
+  buf->offset =
+      (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_in_bitstream_remaining(
@@ -88,7 +89,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((uint64_t)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
@@ -139,7 +140,8 @@ static inline bool swiftnav_out_bitstream_setbitsl(
 
 static inline void swiftnav_out_bitstream_remove(swiftnav_out_bitstream_t *buf,
                                                  u32 len) {
-  buf->offset += len;
+  buf->offset =
+      (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 static inline u32 swiftnav_out_bitstream_remaining(
     swiftnav_out_bitstream_t *buf) {
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..6bf8b2d 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((uint64_t)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
@@ -42,7 +42,8 @@ static inline bool swiftnav_bytestream_get_bytes(
 
 static inline void swiftnav_bytestream_remove(swiftnav_bytestream_t *buf,
                                               u32 len) {
-  buf->offset += len;
+  buf->offset =
+      (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_bytestream_remaining(swiftnav_bytestream_t *buf) {
-- 
2.43.0


From c560542215d168849d19db509a34c48a78c7edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 04/33] fix: crc24q_bits reads no byte past a message of whole
 bytes

The last step fetched the byte after the message although, for a whole
number of bytes, none of its bits enter the sum.
---
 src/edc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..09b8be9 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,10 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  acc = acc << 8;
+  if (n_bits % 8 != 0) {
+    acc |= *buf;
+  }
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From 5e2717205a7811b1e0d47fcaa8f707c9ba2c8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 05/33] fix: decode_glo_ephemeris starts from cleared health
 bits

The health bits of strings 2 and 3 were OR-ed into whatever the ephemeris
held before, so one unhealthy frame (or uninitialised storage) made every
later ephemeris decoded into the same storage unhealthy.
---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..08df43c 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1723,6 +1723,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->toe = GPS_TIME_UNKNOWN;
   eph->sid = sid;
   eph->valid = 0;
+  /* strings 2 and 3 only add to the health bits */
+  eph->health_bits = 0;
 
   glo_time_t tk;
   glo_time_t toe;
-- 
2.43.0


From 9eda305eecbd04f674810336d7324c8a8ad8e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 06/33] fix: GLONASS ephemeris without a valid reference time
 is not valid

NT = 0 (no day number) passes the range check of string 4 and glo2gps
answers with the unknown time, yet the ephemeris was marked valid and
ephemeris_valid() then failed an assertion on it.
---
 src/ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 08df43c..5b6f786 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1739,7 +1739,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
 
   if (ret) {
     eph->toe = glo2gps(&toe, utc_params);
-    eph->valid = 1;
+    /* a day number of zero passes the string checks but is no time */
+    eph->valid = gps_time_valid(&eph->toe);
   }
 
   eph->source = EPH_SOURCE_GLO_FDMA;
-- 
2.43.0


From 57d173afd633b32ac118fc6782be3514eb31c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 07/33] fix: failed Galileo ephemeris decoding leaves no valid
 ephemeris

decode_gal_ephemeris_safe() refuses a reference time beyond the week only
after it has marked the ephemeris valid; validity queries on it then
answered from the bad reference time.
---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 5b6f786..052d6b1 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1683,9 +1683,11 @@ bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE],
   /* Match TOE week number with the time of transmission, fixes the case
    * near week roll-over where time of ephemeris is across the week boundary */
   if (!gps_time_match_weeks_safe(&eph->toe, &t)) {
+    eph->valid = false;
     return false;
   }
   if (!gps_time_match_weeks_safe(&kep->toc, &t)) {
+    eph->valid = false;
     return false;
   }
 
-- 
2.43.0


From 1579ce0905929e7867d74f834aff6033934d3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 08/33] fix: Galileo ephemeris of mixed issues is not valid

decode_gal_ephemeris_safe() took IOD_nav from the first page alone and
combined pages of different issues into one ephemeris marked valid.
As for GPS, an issue mismatch now invalidates the ephemeris.
---
 src/ephemeris.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 052d6b1..6c9ce7b 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1676,6 +1676,17 @@ bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE],
                       (e1b_hs == GAL_HS_SIGNAL_OK ||
                        e1b_hs == GAL_HS_SIGNAL_WILL_BE_OUT_OF_SERVICE));
 
+  /* IOD_nav of the four pages carrying the ephemeris must match */
+  for (u8 i = 1; i < 4; i++) {
+    if (getbitu(page[i], 6, 10) != kep->iode) {
+      log_warn("GAL %d: latest ephemeris has IOD_nav mismatch."
+               " Invalidating ephemeris.",
+               (int)eph->sid.sat);
+      eph->valid = false;
+      break;
+    }
+  }
+
   gps_time_t t;
   t.wn = (s16)getbitu(page[4], 73, 12) + GAL_WEEK_TO_GPS_WEEK;
   t.tow = (double)getbitu(page[4], 85, 20);
-- 
2.43.0


From 6973ff3636aaa7226eea7cd53a323dbce65f5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 09/33] fix: Unix time conversions do not overflow from 2048 on

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..fe6f415 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((time_t)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -310,7 +310,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -326,7 +326,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From 588191d6f35c34a8babc7d58d68ff3374e52e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 10/33] fix: gps2utc does not abort at the edges of a leap
 second

---
 src/gnss_time.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index fe6f415..96f4973 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -199,11 +199,15 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
 
   double tow_utc = t->tow - dt_utc;
 
+  double lse_elapsed = 0.0;
   if (is_lse) {
     /* positive leap second event ongoing, so we are at 23:59:60.xxxx
-     * subtract one second from time for now to make the conversion
-     * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
-    tow_utc = tow_utc - 1;
+     * convert 23:59:59 of that day into yyyy/mm/dd HH:MM:SS.sssss format for
+     * now, and add the extra second and the time elapsed in it back later.
+     * UTC drift and rounding must not carry that time over the event's edges */
+    double day_end = round(tow_utc / DAY_SECS) * DAY_SECS;
+    lse_elapsed = fmin(fmax(tow_utc - day_end, 0.0), nextafter(1.0, 0.0));
+    tow_utc = day_end - 1;
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
@@ -218,6 +222,7 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
     assert(u->second_int == 59);
     /* add the extra second back in*/
     u->second_int += 1;
+    u->second_frac = lse_elapsed;
   }
 }
 
-- 
2.43.0


From b66162c09611301fe232624e75c44b17df95f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 11/33] fix: no leap second event without a change of the leap
 second count

---
 src/gnss_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 96f4973..787c768 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1085,7 +1085,8 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    /* with equal offsets before and after, no leap second was announced */
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From 699a29080e0106e2148859563e91c8c4c9eb26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 12/33] fix: normalised time durations stay below one week of
 seconds

---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 787c768..fa6c99e 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -178,6 +178,11 @@ void normalize_gps_time_duration(gps_time_duration_t *dt) {
   if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
     dt->weeks -= (s16)sign_weeks;
     dt->seconds += sign_weeks * WEEK_SECS;
+    if (fabs(dt->seconds) >= WEEK_SECS) {
+      /* the sum was rounded up to a whole week */
+      dt->weeks += (s16)sign_weeks;
+      dt->seconds = 0;
+    }
   }
 }
 
-- 
2.43.0


From 27d0c45564efb089bd530bce6f0efaa3dea45df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 13/33] fix: URA index 16 is refused, not read beyond the table

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 6c9ce7b..06e5fa3 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 84b2c3cce6dcfa0a1a1dba75c90a9d7d4cf581da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 14/33] fix: a failed position solution never keeps an older
 one's valid flags

---
 src/single_epoch_solver.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..8c81894 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1407,11 +1407,14 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   sid_set_init(&removed_sids);
   lsq_data_t lsq_data;
 
-  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
+  /* the solution is invalid until proven otherwise, also when there are too
+   * few measurements to attempt one */
+  soln->valid = 0;
+  soln->velocity_valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
 
+  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From d275fd1ed6b0f360fbaeefb410a228cb45bb305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 15/33] fix: clock drift variance is not left uninitialised
 without a velocity

---
 src/single_epoch_solver.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 8c81894..36d65a8 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -313,6 +313,7 @@ static s8 vel_solve(const u8 n_used,
        * (Currently either all signals have Doppler or none do, in case of
        * base station measurements) */
       memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
+      memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
       res = -1;
       break;
     }
@@ -563,6 +564,7 @@ static s8 pvt_solve(const u8 n_used,
   if (disable_velocity) {
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
+    memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
   } else {
     /* Perform the velocity solution. */
-- 
2.43.0


From b5dcb7ca457df23ead6c53ee226bbd2fbf2ba83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 16/33] fix: the satellite clock drift is taken off the
 measured Doppler, not added

---
 src/nav_meas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..c1b2eea 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -198,7 +198,8 @@ double nav_meas_cor_sat_clk_on_pseudorange(
 double nav_meas_cor_sat_clk_on_measured_doppler(
     const navigation_measurement_t *nav_meas) {
   double carrier_freq = sid_to_carr_freq(nav_meas->sid);
-  return (nav_meas->raw_measured_doppler +
+  /* a satellite clock running fast raises the received frequency */
+  return (nav_meas->raw_measured_doppler -
           nav_meas->sat_clock_err_rate * carrier_freq);
 }
 
-- 
2.43.0


From e68d819c154bd9c4683b45ca23ec104fda2856cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 17/33] fix: least-squares inverse sums its normal matrix and
 reads the inverse with its own row length

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From 4ab79332a812cd5f41b73e95fd4212cc5ed128c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 18/33] fix: least-norm inverse works on the wide matrices it
 is for

---
 src/linear_algebra.c | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..dcbf93f 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -758,7 +758,7 @@ inline int matrix_atwaiat(
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From 879695646ed8a6e33cbe428b5e70747c39c9473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 19/33] fix: signs in the Keplerian satellite acceleration

The second derivative of the eccentric anomaly and that of the radius
correction had the wrong sign, so the acceleration was not the derivative
of the velocity (off by up to tens of mm/s^2 at eccentricity 0.02).
---
 src/ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 06e5fa3..67fe85e 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From f6bc087cc15460d3ed6dd33e6b68844c0e1bdbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 20/33] fix: Doppler of a moving receiver

The velocity of the receiver was added to that of the satellite instead of
being subtracted, so the prediction moved the wrong way with receiver speed.
---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 67fe85e..d071d60 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -808,7 +808,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From 1f20698618f126f87eb3b79103c5f81dfea6ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 21/33] fix: velocity and acceleration of BeiDou GEO satellites

The rotation from the user-defined inertial system to BDCS was applied to
the position only; the velocity mixed both systems and was kilometres per
second off.
---
 src/ephemeris.c | 51 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index d071d60..e19dcc3 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -340,6 +340,25 @@ static s8 calc_sat_state_glo(const ephemeris_t *e,
   return 0;
 }
 
+/** Rotate a vector from the BDS GEO user-defined inertial system to BDCS.
+ *
+ * References:
+ *   -# BDS-SIS-ICD-2.1, Table 5-11
+ *
+ * \param v Vector to rotate
+ * \param sin_ome Sine of the Earth rotation since the ephemeris epoch
+ * \param cos_ome Cosine of the Earth rotation since the ephemeris epoch
+ */
+static void rotate_geo_to_bdcs(double v[3], double sin_ome, double cos_ome) {
+  double x = v[0];
+  double y = v[1] * COS_5 - v[2] * SIN_5;
+  double z = v[1] * SIN_5 + v[2] * COS_5;
+
+  v[0] = x * cos_ome + y * sin_ome;
+  v[1] = -x * sin_ome + y * cos_ome;
+  v[2] = z;
+}
+
 /** Calculate satellite position, velocity and clock offset from GPS ephemeris.
  *
  * References:
@@ -543,23 +562,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -581,6 +583,21 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  /* transform GEO user-defined inertial system to BDCS */
+  if (orbit_type == GEO) {
+    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
+    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
+    rotate_geo_to_bdcs(pos, sin_ome, cos_ome);
+    rotate_geo_to_bdcs(vel, sin_ome, cos_ome);
+    rotate_geo_to_bdcs(acc, sin_ome, cos_ome);
+
+    /* Account for the rotation of the BDCS */
+    vel[0] += BDS2_OMEGAE_DOT * pos[1];
+    vel[1] -= BDS2_OMEGAE_DOT * pos[0];
+    acc[0] += BDS2_OMEGAE_DOT * (2 * vel[1] + BDS2_OMEGAE_DOT * pos[0]);
+    acc[1] -= BDS2_OMEGAE_DOT * (2 * vel[0] - BDS2_OMEGAE_DOT * pos[1]);
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 5f8107e9a748d3f96f66a3f2316b466a229a90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 22/33] fix: BeiDou orbits whose reference time is in the last
 seconds of a BDS week

The node is referred to the start of the BDS week, which is 14 s later than
that of the GPS week; a toe in those seconds used the wrong week start.
---
 src/ephemeris.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index e19dcc3..65188ec 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -530,6 +530,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Corrected longitude of ascenting node. */
   double om_dot;
   double om;
+  double toe_bdt;
   switch (sid_to_constellation(e->sid)) {
     case CONSTELLATION_GPS:
     case CONSTELLATION_QZS:
@@ -543,8 +544,12 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
       } else {
         om_dot = k->omegadot - BDS2_OMEGAE_DOT;
       }
-      om = k->omega0 + dt * om_dot -
-           BDS2_OMEGAE_DOT * (e->toe.tow - BDS_SECOND_TO_GPS_SECOND);
+      /* The reference is the start of the BDS week the toe belongs to */
+      toe_bdt = e->toe.tow - BDS_SECOND_TO_GPS_SECOND;
+      if (toe_bdt < 0) {
+        toe_bdt += WEEK_SECS;
+      }
+      om = k->omega0 + dt * om_dot - BDS2_OMEGAE_DOT * toe_bdt;
       break;
     case CONSTELLATION_SBAS:
     case CONSTELLATION_GLO:
-- 
2.43.0


From b08a9faf8e32f9555ee9a898f351b4bdc47c48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 23/33] fix: end of a leap second must not round up to second
 61 in GLONASS time

---
 src/gnss_time.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index fa6c99e..481507e 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -682,6 +682,9 @@ glo_time_t gps2glo(const gps_time_t *gps_t, const utc_params_t *utc_params) {
   glo_t.h = u.hour;
   glo_t.m = u.minute;
   glo_t.s = (double)u.second_int + u.second_frac;
+  /* the sum must not round up to the next second: at the end of a leap second
+   * that would be a second 61 */
+  glo_t.s = fmin(glo_t.s, nextafter(u.second_int + 1.0, 0.0));
 
   return glo_t;
 }
-- 
2.43.0


From 13cc7439dabf5271d1f06106fa5901a1389821f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 24/33] fix: LOG_RATE_LIMIT forgot an emission made at clock
 value 0xffffffff

---
 include/swiftnav/logging.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/swiftnav/logging.h b/include/swiftnav/logging.h
index 9cf9e93..62fe786 100644
--- a/include/swiftnav/logging.h
+++ b/include/swiftnav/logging.h
@@ -288,11 +288,13 @@ extern const char *level_string[];
 
 #define LOG_RATE_LIMIT(this_tow, cmd)               \
   do {                                              \
-    static u32 last_tow = 0xffffffff;               \
-    if ((last_tow) == 0xffffffff ||                 \
+    static bool last_tow_valid = false;             \
+    static u32 last_tow = 0;                        \
+    if (!last_tow_valid ||                          \
         ((this_tow)-last_tow) >= LOG_RATE_THRESH) { \
       cmd;                                          \
       last_tow = this_tow;                          \
+      last_tow_valid = true;                        \
     }                                               \
   } while (0)
 
-- 
2.43.0


From 98c2187cc91800e33cb3af8b0b2e3a145e719a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 25/33] fix: round, not truncate, fields of the BeiDou issue
 checksum

get_bds2_iod_crc() cast each rescaled parameter to an integer by
truncation. Scale factors such as 2^-66 are not exact decimals, so a
decoded value times its inverse scale may fall a hair short of the
transmitted integer and lose a unit, giving a different checksum.
---
 src/ephemeris.c | 107 ++++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 48 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 65188ec..95ca077 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1984,92 +1984,103 @@ u32 get_bds2_iod_crc(const ephemeris_t *eph) {
   setbits(buffer,
           numbits,
           14,
-          (s32)(eph->data.kepler.inc_dot / M_PI * (double)(1 << 30) *
-                (double)(1 << 13)));
+          (s32)round(eph->data.kepler.inc_dot / M_PI * (double)(1 << 30) *
+                     (double)(1 << 13)));
   numbits += 14;
   setbits(buffer,
           numbits,
           11,
-          (s32)(eph->data.kepler.af2 * (double)(1 << 30) * (double)(1 << 30) *
-                (double)(1 << 6)));
+          (s32)round(eph->data.kepler.af2 * (double)(1 << 30) *
+                     (double)(1 << 30) * (double)(1 << 6)));
   numbits += 11;
-  setbits(buffer,
-          numbits,
-          22,
-          (s32)(eph->data.kepler.af1 * (double)(1 << 30) * (double)(1 << 20)));
+  setbits(
+      buffer,
+      numbits,
+      22,
+      (s32)round(eph->data.kepler.af1 * (double)(1 << 30) * (double)(1 << 20)));
   numbits += 22;
-  setbits(buffer,
-          numbits,
-          24,
-          (s32)(eph->data.kepler.af0 * (double)(1 << 30) * (double)(1 << 3)));
+  setbits(
+      buffer,
+      numbits,
+      24,
+      (s32)round(eph->data.kepler.af0 * (double)(1 << 30) * (double)(1 << 3)));
   numbits += 24;
-  setbits(buffer, numbits, 18, (s32)(eph->data.kepler.crs * (double)(1 << 6)));
+  setbits(
+      buffer, numbits, 18, (s32)round(eph->data.kepler.crs * (double)(1 << 6)));
   numbits += 18;
   setbits(buffer,
           numbits,
           16,
-          (s32)(eph->data.kepler.dn / M_PI * (double)(1 << 30) *
-                (double)(1 << 13)));
+          (s32)round(eph->data.kepler.dn / M_PI * (double)(1 << 30) *
+                     (double)(1 << 13)));
   numbits += 16;
+  setbits(buffer,
+          numbits,
+          32,
+          (s32)round(eph->data.kepler.m0 / M_PI * (double)(1 << 30) *
+                     (double)(1 << 1)));
+  numbits += 32;
   setbits(
+      buffer,
+      numbits,
+      18,
+      (s32)round(eph->data.kepler.cuc * (double)(1 << 30) * (double)(1 << 1)));
+  numbits += 18;
+  setbitu(
       buffer,
       numbits,
       32,
-      (s32)(eph->data.kepler.m0 / M_PI * (double)(1 << 30) * (double)(1 << 1)));
+      (u32)round(eph->data.kepler.ecc * (double)(1 << 30) * (double)(1 << 3)));
   numbits += 32;
-  setbits(buffer,
-          numbits,
-          18,
-          (s32)(eph->data.kepler.cuc * (double)(1 << 30) * (double)(1 << 1)));
+  setbits(
+      buffer,
+      numbits,
+      18,
+      (s32)round(eph->data.kepler.cus * (double)(1 << 30) * (double)(1 << 1)));
   numbits += 18;
   setbitu(buffer,
           numbits,
           32,
-          (u32)(eph->data.kepler.ecc * (double)(1 << 30) * (double)(1 << 3)));
+          (u32)round(eph->data.kepler.sqrta * (double)(1 << 19)));
   numbits += 32;
-  setbits(buffer,
-          numbits,
-          18,
-          (s32)(eph->data.kepler.cus * (double)(1 << 30) * (double)(1 << 1)));
+  setbits(
+      buffer,
+      numbits,
+      18,
+      (s32)round(eph->data.kepler.cic * (double)(1 << 30) * (double)(1 << 1)));
   numbits += 18;
-  setbitu(
-      buffer, numbits, 32, (u32)(eph->data.kepler.sqrta * (double)(1 << 19)));
-  numbits += 32;
   setbits(buffer,
           numbits,
-          18,
-          (s32)(eph->data.kepler.cic * (double)(1 << 30) * (double)(1 << 1)));
+          32,
+          (s32)round(eph->data.kepler.omega0 / M_PI * (double)(1 << 30) *
+                     (double)(1 << 1)));
+  numbits += 32;
+  setbits(
+      buffer,
+      numbits,
+      18,
+      (s32)round(eph->data.kepler.cis * (double)(1 << 30) * (double)(1 << 1)));
   numbits += 18;
   setbits(buffer,
           numbits,
           32,
-          (s32)(eph->data.kepler.omega0 / M_PI * (double)(1 << 30) *
-                (double)(1 << 1)));
+          (s32)round(eph->data.kepler.inc / M_PI * (double)(1 << 30) *
+                     (double)(1 << 1)));
   numbits += 32;
-  setbits(buffer,
-          numbits,
-          18,
-          (s32)(eph->data.kepler.cis * (double)(1 << 30) * (double)(1 << 1)));
+  setbits(
+      buffer, numbits, 18, (s32)round(eph->data.kepler.crc * (double)(1 << 6)));
   numbits += 18;
   setbits(buffer,
           numbits,
           32,
-          (s32)(eph->data.kepler.inc / M_PI * (double)(1 << 30) *
-                (double)(1 << 1)));
-  numbits += 32;
-  setbits(buffer, numbits, 18, (s32)(eph->data.kepler.crc * (double)(1 << 6)));
-  numbits += 18;
-  setbits(
-      buffer,
-      numbits,
-      32,
-      (s32)(eph->data.kepler.w / M_PI * (double)(1 << 30) * (double)(1 << 1)));
+          (s32)round(eph->data.kepler.w / M_PI * (double)(1 << 30) *
+                     (double)(1 << 1)));
   numbits += 32;
   setbits(buffer,
           numbits,
           24,
-          (s32)(eph->data.kepler.omegadot / M_PI * (double)(1 << 30) *
-                (double)(1 << 13)));
+          (s32)round(eph->data.kepler.omegadot / M_PI * (double)(1 << 30) *
+                     (double)(1 << 13)));
   numbits += 24;
   setbits(buffer, numbits, 5, 0);
   numbits += 5;
-- 
2.43.0


From 193312214cafd2bd57a93496f62de7228b2382ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 26/33] fix: keep Greenwich mean sidereal time in 0..2 pi
 before 2000

fmod() keeps the sign of its argument, so utc2gmst() returned negative
angles for dates before the epoch of the formula.
---
 src/gnss_time.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 481507e..de60ff8 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -625,8 +625,11 @@ double utc2gmst(utc_tm u, double ut1_utc) {
   gmst0 = 24110.54841 + 8640184.812866 * t1 + 0.093104 * t2 - 6.2E-6 * t3;
   gmst = gmst0 + 1.002737909350795 * ut;
 
-  return fmod(gmst, (double)DAY_SECS) * M_PI /
-         (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
+  gmst = fmod(gmst, (double)DAY_SECS);
+  if (gmst < 0) {
+    gmst += DAY_SECS;
+  }
+  return gmst * M_PI / (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
 }
 
 /** Transform GPS time into GLONASS time
-- 
2.43.0


From 34826ef4326b1c20bdd727965cd06d92e001b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 27/33] fix: lock time indicator one step short at powers of
 two

DF402 indicator i stands for at least 2^(i+4) ms. A lock time of exactly that
length was given the indicator below, so that a decoded indicator lost one
step each time it was encoded again.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index c1b2eea..67856ef 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From dd1bcb89c0f1b63077bf6283c8350c48acd8aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 28/33] fix: undefined lock time indicator after 49.7 days

The limit was compared with seconds, but milliseconds are converted.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 67856ef..8c728e0 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From f8885b322dd9e03b33d63523633de49388dc88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 29/33] fix: constellation of an invalid code read outside the
 code table

SID_UNKNOWN has code -1; comparing, ordering or classifying it indexed
code_table[-1].
---
 src/signal.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..853a164 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -1146,9 +1146,13 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  *
  * \param sid   gnss_signal_t to use.
  *
- * \return Constellation to which sid belongs.
+ * \return Constellation to which sid belongs, CONSTELLATION_INVALID if its code
+ *         is not valid.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
+  if (!code_valid(sid.code)) {
+    return CONSTELLATION_INVALID;
+  }
   return code_table[sid.code].constellation;
 }
 
@@ -1333,7 +1337,8 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GPS == code_table[code].constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1347,8 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_SBAS == code_table[code].constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1357,8 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GLO == code_table[code].constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1367,8 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_BDS == code_table[code].constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1377,8 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GAL == code_table[code].constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1387,8 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_QZS == code_table[code].constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From 1c5ea4b3c7374cba06988df6ae481a46703d300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 30/33] fix: decode_gal_ephemeris leaves stale health bits in
 reused storage

---
 src/ephemeris.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 95ca077..886efa7 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1693,6 +1693,10 @@ bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE],
   u16 e5b_hs = getbitu(page[4], 67, 2); /* E5b Health Status */
   u16 e1b_hs = getbitu(page[4], 69, 2); /* E1b Health Status */
 
+  /* Health is reflected in the valid flag below, the health bits are not used
+   * for GAL and must not retain what was stored in them before */
+  eph->health_bits = 0;
+
   eph->valid = (bool)((e5b_hs == GAL_HS_SIGNAL_OK ||
                        e5b_hs == GAL_HS_SIGNAL_WILL_BE_OUT_OF_SERVICE) &&
                       (e1b_hs == GAL_HS_SIGNAL_OK ||
-- 
2.43.0


From 73bb0d3e9aa24af1bba427030878afb6dbd3cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 31/33] fix: predicted Doppler mixes an unrotated line of sight
 with a rotated velocity

---
 src/single_epoch_solver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 36d65a8..0286aef 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -255,6 +255,7 @@ static double compute_predicted_doppler(
   const double *user_pos = &rx_state[0];
   const double *user_vel = &rx_state[n_states];
   const double clock_drift_m_s = rx_state[n_states + 3];
+  double sat_pos_new[3] = {0.0};
   double sat_vel_new[3] = {0.0};
   double line_of_sight[3] = {0.0};
   double relative_velocity[3] = {0.0};
@@ -264,8 +265,10 @@ static double compute_predicted_doppler(
   double tau = vector_norm(3, line_of_sight) / GPS_C;
 
   /* Apply linearized rotation about Z-axis which will adjust for the
-   * satellite's velocity at time t-tau. */
+   * satellite's position and velocity at time t-tau. */
+  sagnac_rotation(nav_meas->sat_pos, tau, sat_pos_new);
   sagnac_rotation(nav_meas->sat_vel, tau, sat_vel_new);
+  vector_subtract(3, sat_pos_new, user_pos, line_of_sight);
 
   /* Predicted Doppler measurement is the relative user-satellite velocity
    * projected onto the unit line-of-sight vector, plus clock drift */
-- 
2.43.0


From d03f299e3a3d86f34b2a8f4e1c39ca25ce067514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 32/33] fix: no valid velocity (and no undefined residuals)
 when a signal lacks measured Doppler

---
 src/single_epoch_solver.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 0286aef..92ec747 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1384,6 +1384,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
    *  rx_state format:
    *    pos[3], clock error, vel[3], intermediate freq error
    */
+  bool no_velocity = disable_velocity;
   for (u8 i = 0; i < n_processed_meas_used; i++) {
     if (!(processed_nav_meas_ptrs[i]->flags & NAV_MEAS_FLAG_CODE_VALID)) {
       assert(
@@ -1391,14 +1392,10 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
           "SPP attempted on measurements that did not have valid pseudorange");
     }
 
-    /* if velocity output is requested, every signal must have valid Doppler */
-    if (!disable_velocity &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_COMP_DOPPLER_VALID)) {
-      assert(
-          "SPP velocity requested but not all measurements have valid Doppler");
+    /* velocity can be solved only if every signal has a measured Doppler */
+    if (!(processed_nav_meas_ptrs[i]->flags &
+          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) {
+      no_velocity = true;
     }
   }
 
@@ -1428,7 +1425,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                clock_map,
                                processed_nav_meas_ptrs,
                                disable_raim,
-                               disable_velocity,
+                               no_velocity,
                                &lsq_data,
                                &removed_sids,
                                /* metric = */ NULL);
@@ -1471,7 +1468,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   soln->err_cov[5] = lsq_data.V[2 * n_states + 2];
   soln->err_cov[6] = dops->gdop;
 
-  if (!disable_velocity) {
+  if (!no_velocity) {
     /* Populate the velocity covariances similarly to err_cov  */
     soln->vel_cov[0] = lsq_data.V_vel[0 * n_states + 0];
     soln->vel_cov[1] = lsq_data.V_vel[0 * n_states + 1];
@@ -1529,7 +1526,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   soln->valid = 1;
 
-  if (!disable_velocity) {
+  if (!no_velocity) {
     soln->velocity_valid = 1;
   } else {
     soln->velocity_valid = 0;
@@ -1546,7 +1543,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                       clock_map,
                       processed_nav_meas_ptrs,
                       lsq_data.rx_state,
-                      disable_velocity,
+                      no_velocity,
                       &sid_set,
                       &removed_sids)) {
       raim_flag = PVT_CONVERGED_RAIM_REPAIR;
-- 
2.43.0


From be3eb1a94bc931e8c5e6839ed89135fa76ebeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 33/33] fix: every component of the BeiDou B1C signal uses the
 B1I group delay

---
 src/ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 886efa7..9620788 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -2120,7 +2120,8 @@ s8 get_tgd_correction(const ephemeris_t *eph,
       // As BeiDou CNAV ephemeris is not yet available, use BeiDou B1i group
       // delay for B1C. It is not a perfect way and there may still be a meter
       // level error.
-      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code) {
+      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code ||
+          CODE_BDS3_B1CQ == sid->code || CODE_BDS3_B1CX == sid->code) {
         *tgd = eph->data.kepler.tgd.bds_s[0];
       } else if (CODE_BDS3_B3I == sid->code || CODE_BDS3_B3Q == sid->code ||
                  CODE_BDS3_B3X == sid->code) {
-- 
2.43.0

