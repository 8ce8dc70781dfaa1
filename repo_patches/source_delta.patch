From 7b4befeb09605491c326a949130042aa4f275fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:02 +0000
Subject: [PATCH 01/30] fix: spec: avoid overflow of the gain estimation

At 96 KHz in high-resolution mode, the sum of the energies could exceed
32 bits on loud wideband signals. The bisection then selected a far too
low gain, which the adjustment step replaced by the coarsest one.
---
 src/spec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..0340298 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
@@ -163,7 +163,7 @@ LC3_HOT static int estimate_gain(
                                    : 2*e_diff - (36 << 16);
         }
 
-        if (v > nbits * k_1u4)
+        if (v > (int64_t)nbits * k_1u4)
             j0 = j1;
         else
             g_int = g_int - i;
-- 
2.43.0


From 0bdc5230bb1c7dc652d72c673a856f727d023d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:19 +0000
Subject: [PATCH 02/30] fix: ltpf: saturate the output of the 50 Hz high-pass
 filter

Full scale steps make the filter exceed 32 bits. The value was wrapped to
the opposite sign, or made the rounding to 16 bits overflow.
---
 src/ltpf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index 08cbae6..fb58f42 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -184,12 +184,16 @@ static const int16_t h_96k_12k8_q15[2*120] = {
 LC3_HOT static inline int32_t filter_hp50(
     struct lc3_ltpf_hp50_state *hp50, int32_t xn)
 {
-    int32_t yn;
-
     const int32_t a1 = -2110217691, a2 = 1037111617;
     const int32_t b1 = -2110535566, b2 = 1055267782;
 
-    yn       = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    /* Saturate, keeping the room for rounding on 16 bits */
+
+    const int64_t yn_max = INT32_MAX - (1 << 15), yn_min = INT32_MIN;
+
+    int64_t y64 = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    int32_t yn  = LC3_CLIP(y64, yn_min, yn_max);
+
     hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - (int64_t)yn * a1);
     hp50->s2 = (           (int64_t)xn * b2 - (int64_t)yn * a2);
 
-- 
2.43.0


From df7ac371471777611f51c9152cd08eb58618af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:48 +0000
Subject: [PATCH 03/30] fix: lc3: output of tiny samples as float values

The subtraction on the exponent field borrowed on the sign bit when the
sample was below 2^-111, as reached by the packet loss concealment after
some hundreds of lost frames, and +/- 1 was output.
---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..234b4f2 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -556,7 +556,7 @@ static void store_float(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        float s = lc3_ldexpf(*xs, -15);
+        float s = *xs * 0x1p-15f;
         *pcm = fminf(fmaxf(s, -1.f), 1.f);
     }
 }
-- 
2.43.0


From 15babe384b36ee11ed2dc9e34fc6d57cb373b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:16 +0000
Subject: [PATCH 04/30] fix: lc3: saturate decoded samples before the
 conversion to integer

Frames that carry extreme values made the conversion from float overflow,
and positive samples were then saturated to the negative full scale.
---
 src/lc3.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index 234b4f2..24c57fa 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,8 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
-        *pcm = LC3_SAT16(s);
+        float s = LC3_CLIP(*xs, -0x1p15f, 0x1p15f - 1);
+        *pcm = s >= 0 ? (int)(s + 0.5f) : (int)(s - 0.5f);
     }
 }
 
@@ -506,9 +506,8 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
-        *pcm = LC3_SAT24(s);
+        float s = LC3_CLIP(lc3_ldexpf(*xs, 8), -0x1p23f, 0x1p23f - 1);
+        *pcm = s >= 0 ? (int32_t)(s + 0.5f) : (int32_t)(s - 0.5f);
     }
 }
 
@@ -529,10 +528,9 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float f = LC3_CLIP(lc3_ldexpf(*xs, 8), -0x1p23f, 0x1p23f - 1);
+        int32_t s = f >= 0 ? (int32_t)(f + 0.5f) : (int32_t)(f - 0.5f);
 
-        s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
         pcm[1] = (s >>  8) & 0xff;
         pcm[2] = (s >> 16) & 0xff;
-- 
2.43.0


From 868e26e598d444b2c68fdf7fe36849bcc9e3f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:40 +0000
Subject: [PATCH 05/30] fix: lc3: maximum size of frame blocks with frames of
 2.5 ms

The bitrate was limited to 8 times the maximum of the high-resolution mode,
that is below 8 frames of 400 bytes every 2.5 ms.
---
 src/lc3.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index 24c57fa..eceff82 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -115,9 +115,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
-
-    return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
+    return LC3_CLIP(((int64_t)bitrate * (1 + dt)) / 3200,
         nchannels * lc3_min_frame_bytes(dt, sr),
         nchannels * lc3_max_frame_bytes(dt, sr) );
 }
-- 
2.43.0


From 670e30e2d2c284c6b3ba30a4dd9bc33aa6e5527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:40 +0000
Subject: [PATCH 06/30] fix: lc3_cpp: format of PCM samples decoded in int32_t

They were output packed on 3 bytes, whereas the encoder takes 24 bits
samples in the low bits of int32_t.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From 0cf0c52bba75b7d7cd1ee35acdb8361141eefd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:40 +0000
Subject: [PATCH 07/30] fix: python: release the contexts on deletion of the
 objects

A generator expression was built and never consumed.
---
 python/lc3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..62f4718 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -300,7 +300,8 @@ class Encoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -466,7 +467,8 @@ class Decoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From 669315c572088a21395eba69af666e849882122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:40 +0000
Subject: [PATCH 08/30] fix: python: zero padding of incomplete frames of float
 samples

The padding was not computed from the length of the input : short mono
frames raised an exception, as shorter than half multi-channel ones.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 62f4718..e284d1c 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -346,7 +346,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From 021336240809280a6f5b29f2aca70e88a744eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 09/30] fix: tools: wave files with a format chunk larger than
 16 bytes

The file position was moved backward instead of being moved after the chunk.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..0e59348 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, (8 + (long)format.size) - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From 7249b5b5d2ff4ed128c9fd638c7fb2413380686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 10/30] fix: tools: length of the decoded file when shorter
 than one frame

The samples following the delay were not deduced from the first frame, and
more samples than declared in the header were output.
---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..9f2ca43 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -252,7 +252,7 @@ int main(int argc, char *argv[])
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
         int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+            encode_samples - i*frame_samples - pcm_offset);
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From bd789ad5f2498167bcb3aadc18236b8767b11c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 11/30] fix: tools: output of frames of invalid size

Nothing was decoded for such frames, and uninitialized or stale samples
were written. Conceal them, as done for the other invalid frames.
---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 9f2ca43..8e6acc0 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -245,6 +245,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From 2f1a50b5f5eb04ecd1d39cc6ef0e8e6808706069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 12/30] fix: tools: reject a bitdepth of 0 for decoding

A wave file without any data was output.
---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8e6acc0..86a82e1 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -155,7 +155,7 @@ int main(int argc, char *argv[])
     if (p.fname_out && (fp_out = fopen(p.fname_out, "wb")) == NULL)
         error(errno, "%s", p.fname_out);
 
-    if (p.bitdepth && p.bitdepth != 16 && p.bitdepth != 24)
+    if (p.bitdepth != 16 && p.bitdepth != 24)
         error(EINVAL, "Bitdepth %d", p.bitdepth);
 
     /* --- Check parameters --- */
-- 
2.43.0


From 191fb5128f1756fffd55c924d0eb46faa24db704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 13/30] fix: tools: overflow of the progress time after 35
 minutes

---
 tools/dlc3.c | 4 ++--
 tools/elc3.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 86a82e1..4f44737 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -223,7 +223,7 @@ int main(int argc, char *argv[])
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf(i * (frame_us * 1e-6)) > nsec) {
 
             float progress = fminf((float)i * frame_samples / pcm_samples, 1);
 
@@ -231,7 +231,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = rint(i * frame_us * 1e-6);
+            nsec = rint(i * (frame_us * 1e-6));
         }
 
         if (block_bytes <= 0)
diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..6becdc1 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -244,7 +244,7 @@ int main(int argc, char *argv[])
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf(i * (frame_us * 1e-6)) > nsec) {
             float progress = fminf(
                 (float)i * frame_samples / encode_samples, 1);
 
@@ -252,7 +252,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = (int)(i * frame_us * 1e-6);
+            nsec = (int)(i * (frame_us * 1e-6));
         }
 
         uint8_t *out_ptr = out;
-- 
2.43.0


From 0d7826aa24239a53e5c445c9b3ab018c09cc42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:21 +0000
Subject: [PATCH 14/30] fix: tools: reject LC3 binary files with more than 2^31
 samples

The count overflowed to a negative value.
---
 tools/lc3bin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..04ed173 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -61,10 +61,10 @@ int lc3bin_read_header(FILE *fp,
     *nchannels = hdr.channels;
     *frame_us = hdr.frame_10us * 10;
     *srate_hz = hdr.srate_100hz * 100;
-    *nsamples = hdr.nsamples_low | (hdr.nsamples_high << 16);
+    *nsamples = hdr.nsamples_low | ((uint32_t)hdr.nsamples_high << 16);
     *hrmode = hdr_hrmode != 0;
 
-    if (hdr.epmode)
+    if (hdr.epmode || *nsamples < 0)
       return -1;
 
     fseek(fp, hdr.header_size, SEEK_SET);
-- 
2.43.0


From 506c8653f0a35fb486b2f95d4d54e8256e00c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:21 +0000
Subject: [PATCH 15/30] fix: tools: overflow of the number of samples with the
 delay

---
 tools/dlc3.c | 8 ++++----
 tools/elc3.c | 4 ++--
 tools/wave.c | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 4f44737..bd18d44 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -185,7 +185,7 @@ int main(int argc, char *argv[])
 
     int pcm_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
     int pcm_samples = !p.srate_hz ? nsamples :
-        ((int64_t)nsamples * pcm_srate_hz) / srate_hz;
+        MIN(((int64_t)nsamples * pcm_srate_hz) / srate_hz, INT32_MAX);
 
     wave_write_header(fp_out,
           pcm_sbits, pcm_sbytes, pcm_srate_hz, nchannels, pcm_samples);
@@ -197,7 +197,7 @@ int main(int argc, char *argv[])
     lc3_decoder_t dec[2];
 
     int frame_samples = lc3_hr_frame_samples(hrmode, frame_us, pcm_srate_hz);
-    int encode_samples = pcm_samples +
+    int64_t encode_samples = (int64_t)pcm_samples +
         lc3_hr_delay_samples(hrmode, frame_us, pcm_srate_hz);
     enum lc3_pcm_format pcm_fmt =
         pcm_sbits == 24 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16;
@@ -219,7 +219,7 @@ int main(int argc, char *argv[])
     int nerr = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int i = 0; (int64_t)i * frame_samples < encode_samples; i++) {
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
@@ -256,7 +256,7 @@ int main(int argc, char *argv[])
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
         int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples - pcm_offset);
+            encode_samples - (int64_t)i*frame_samples - pcm_offset);
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
diff --git a/tools/elc3.c b/tools/elc3.c
index 6becdc1..f169e93 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -215,7 +215,7 @@ int main(int argc, char *argv[])
 
     int frame_samples = lc3_hr_frame_samples(
         p.hrmode, frame_us, srate_hz);
-    int encode_samples = nsamples + lc3_hr_delay_samples(
+    int64_t encode_samples = (int64_t)nsamples + lc3_hr_delay_samples(
         p.hrmode, frame_us, srate_hz);
     enum lc3_pcm_format pcm_fmt =
         pcm_sbytes == 32/8 ? LC3_PCM_FORMAT_S24 :
@@ -237,7 +237,7 @@ int main(int argc, char *argv[])
     int nsec = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int i = 0; (int64_t)i * frame_samples < encode_samples; i++) {
 
         int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
 
diff --git a/tools/wave.c b/tools/wave.c
index 0e59348..f534397 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -150,7 +150,7 @@ void wave_write_header(FILE *fp, int bitdepth, int samplesize,
         struct wave_data data;
     } header;
 
-    long data_size = nchannels * nframes * samplesize;
+    long data_size = (long)nchannels * nframes * samplesize;
     long file_size = sizeof(header) + data_size;
 
     header.file = (struct wave_file){
-- 
2.43.0


From 5df930b0e553c4cc04d8bbcfbb328c8264cc2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:41 +0000
Subject: [PATCH 16/30] fix: fastmath: exponential with the fast-math option of
 clang

With -ffast-math, clang simplifies `x - (v - C)` into `(x + C) - v`, which is
always rounded to 0: the fractional part of the exponent is lost, and the
result is wrong by up to 4%.
---
 src/fastmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..96d42bc 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -98,7 +98,8 @@ static inline float lc3_exp2f(float x)
 
     v.f = x + 0x1.8p20f;
     int k = v.s;
-    x -= v.f - 0x1.8p20f;
+    v.f = v.f - 0x1.8p20f;
+    x -= v.f;
 
     /* --- Compute 2^x, with |x| < 1 ---
      * Perform polynomial approximation in range -0.5/8 to 0.5/8,
-- 
2.43.0


From cac7183a8b27fef519e8a2fe644d5806a2d5178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:12 +0000
Subject: [PATCH 17/30] fix: spec: code the first pair of coefficients when
 none is significant

The count of significant coefficients is coded as 2 at least, the decoder reads
a pair that was not written: it gets an arbitrary value when an other data
(TNS coefficients) has been arithmetic coded. The output of the decoder is then
a random tone, up to full scale when the spectrum is truncated to nothing at
low bitrate.
---
 src/spec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spec.c b/src/spec.c
index 0340298..9ccdbf9 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -891,6 +891,11 @@ void lc3_spec_encode(lc3_bits_t *bits,
     bool lsb_mode = side->lsb_mode;
     int nq = side->nq;
 
+    /* The first pair is always coded, null when nothing is significant */
+
+    if (nq < 2)
+        x[0] = x[1] = 0, nq = 2;
+
     put_noise_factor(bits, estimate_noise(dt, bw, lc3_hr(sr), x, nq));
 
     put_quantized(bits, dt, sr, nbytes, x, nq, lsb_mode);
-- 
2.43.0


From 0a88b11f60bae2ba350c5a259cbb6d77b2efa203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:54 +0000
Subject: [PATCH 18/30] fix: spec: residual bits of coefficients right below
 0.5 in high-resolution mode

The sum of 0.5 and the value preceding 0.5 is rounded to 1 in single precision.
The coefficient was then coded as 1, but skipped as null by the coding of the
residual bits, which shifted the residual of all following coefficients.
---
 src/spec.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spec.c b/src/spec.c
index 9ccdbf9..c589884 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -25,6 +25,14 @@
  *  Global Gain / Quantization
  * -------------------------------------------------------------------------- */
 
+/**
+ * Rounding offset of the quantization, in high-resolution mode
+ * The value preceding 0.5, prevents the coefficients right below 0.5 from
+ * being rounded up to 1, while they are considered as null (less than 0.5)
+ * by the count of significants, residual and noise level estimation.
+ */
+#define LC3_HR_XQ_OFF  0x1.fffffep-2f
+
 /**
  * Resolve quantized gain index offset
  * sr, nbytes      Samplerate and size of the frame
@@ -343,7 +351,7 @@ LC3_HOT static int compute_nbits(
         for ( ; i < LC3_MIN(*n, (ne + 2) >> (1 - h))
                 && nbits <= nbits_budget; i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? LC3_HR_XQ_OFF : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -432,7 +440,7 @@ LC3_HOT static void put_quantized(lc3_bits_t *bits,
 
         for ( ; i < LC3_MIN(nq, (ne + 2) >> (1 - h)); i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? LC3_HR_XQ_OFF : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -639,7 +647,7 @@ LC3_HOT static void put_lsb(lc3_bits_t *bits,
 {
     for (int i = 0; i < n && nbits > 0; i += 2) {
 
-        float xq_off = hrmode ? 0.5f : 6.f/16;
+        float xq_off = hrmode ? LC3_HR_XQ_OFF : 6.f/16;
         uint32_t a = fabsf(x[i+0]) + xq_off;
         uint32_t b = fabsf(x[i+1]) + xq_off;
 
-- 
2.43.0


From a154a4bdea6735f6f2400154515bab9f5a37a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:18 +0000
Subject: [PATCH 19/30] fix: bits: undefined shift when reading beyond the
 start of the frame

The accumulator can be completely consumed (32 bits) when the start of
the buffer is reached, the shift by the width of the type is undefined.
---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From d49ec10d3a3de1cd4d3f687a0eae3063c32251ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:25 +0000
Subject: [PATCH 20/30] fix: lc3_cpp: Decode() of a lost block with several
 channels

Without input, the pointer of the second and following channels was
not null, and read.
---
 include/lc3_cpp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..2552a0a 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,8 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr)
+        in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 6899dde99d863737cc7caae2523ad4d96209285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:25 +0000
Subject: [PATCH 21/30] fix: lc3_cpp: negative PCM samplerate, overflow of the
 states

The setup takes any PCM samplerate not positive as the samplerate of the
stream, but the memory was sized with the negative value, hence empty.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 2552a0a..c9b80a8 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -53,7 +53,7 @@ class Base {
   Base(int dt_us, int sr_hz, int sr_pcm_hz, size_t nchannels, bool hrmode)
       : dt_us_(dt_us),
         sr_hz_(sr_hz),
-        sr_pcm_hz_(sr_pcm_hz == 0 ? sr_hz : sr_pcm_hz),
+        sr_pcm_hz_(sr_pcm_hz <= 0 ? sr_hz : sr_pcm_hz),
         nchannels_(nchannels),
         hrmode_(hrmode) {
     states.reserve(nchannels_);
-- 
2.43.0


From c9f4e1cde8f95885784822c326efa2b5ef5f6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:14:34 +0000
Subject: [PATCH 22/30] fix: refuse high-resolution mode when built without

With LC3_PLUS_HR=0, the high-resolution mode was silently ignored,
and streams of the regular mode coded or expected.
---
 src/lc3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index eceff82..f450550 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -72,15 +72,14 @@ static enum lc3_dt resolve_dt(int us, bool hrmode)
  */
 static enum lc3_srate resolve_srate(int hz, bool hrmode)
 {
-    hrmode = LC3_PLUS_HR && hrmode;
-
     return !hrmode && hz ==  8000 ? LC3_SRATE_8K     :
            !hrmode && hz == 16000 ? LC3_SRATE_16K    :
            !hrmode && hz == 24000 ? LC3_SRATE_24K    :
            !hrmode && hz == 32000 ? LC3_SRATE_32K    :
            !hrmode && hz == 48000 ? LC3_SRATE_48K    :
-            hrmode && hz == 48000 ? LC3_SRATE_48K_HR :
-            hrmode && hz == 96000 ? LC3_SRATE_96K_HR : LC3_NUM_SRATE;
+           LC3_PLUS_HR && hrmode && hz == 48000 ? LC3_SRATE_48K_HR :
+           LC3_PLUS_HR && hrmode && hz == 96000 ? LC3_SRATE_96K_HR :
+                                                  LC3_NUM_SRATE;
 }
 
 /**
-- 
2.43.0


From ee02396bf13b5ee21dc6f7d300508779c1660889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:08 +0000
Subject: [PATCH 23/30] fix: python: library without the high-resolution
 interface

The size of the blocks was always computed for two channels, and the
pointers given to and returned by the setup were truncated to 32 bits.
---
 python/lc3.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index e284d1c..0600ac1 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -107,7 +107,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -264,6 +264,9 @@ class Encoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             setattr(lib, "lc3_hr_encoder_size", lc3_hr_encoder_size)
             setattr(lib, "lc3_hr_setup_encoder", lc3_hr_setup_encoder)
 
@@ -431,6 +434,9 @@ class Decoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             setattr(lib, "lc3_hr_decoder_size", lc3_hr_decoder_size)
             setattr(lib, "lc3_hr_setup_decoder", lc3_hr_setup_decoder)
 
-- 
2.43.0


From fb48ddb9b5c54c7830859259a764ff3836c308e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:08 +0000
Subject: [PATCH 24/30] fix: python: valid float samples refused with several
 channels

The samples of all the channels were summed, but averaged on the number
of samples of only one of them.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 0600ac1..7db3234 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -346,7 +346,7 @@ class Encoder(_Base):
             pcm_buffer = array.array("f", pcm)
 
             # Invert test to catch NaN
-            if not abs(sum(pcm_buffer)) / frame_samples < 2:
+            if not abs(sum(pcm_buffer)) < 2 * max(len(pcm_buffer), 1):
                 raise InvalidArgumentError("Out of range PCM input")
 
             padding = max(pcm_len - len(pcm_buffer), 0)
-- 
2.43.0


From 75a7818e87908f7c9e7396a8510562875f4649ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:42 +0000
Subject: [PATCH 25/30] fix: python/encoder: frame durations of 2.5 and 7.5 ms
 refused

The duration was truncated to an integer number of milliseconds.
---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index 3246c4c..ffc2902 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -57,7 +57,7 @@ stream_length = wavfile.getnframes()
 # --- Setup encoder ---
 
 enc = lc3.Encoder(
-    int(args.frame_duration)*1000, samplerate, nchannels, libpath=args.libpath)
+    int(args.frame_duration * 1000), samplerate, nchannels, libpath=args.libpath)
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
-- 
2.43.0


From d50f9d5dd6402be217cce0337e973906eca5447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:42 +0000
Subject: [PATCH 26/30] fix: python/encoder: end of the stream not encoded

The delay of the codec was not taken into account, as elc3 does:
the last samples were lost, and the decoder stopped on a missing frame.
---
 python/tools/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index ffc2902..581457c 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -61,6 +61,7 @@ enc = lc3.Encoder(
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
+encoded_length = stream_length + enc.get_delay_samples()
 
 # --- Setup output ---
 
@@ -72,7 +73,7 @@ f_lc3.write(struct.pack(
 
 # --- Encoding loop ---
 
-for i in range(0, stream_length, frame_length):
+for i in range(0, encoded_length, frame_length):
 
     f_lc3.write(struct.pack('=H', frame_size))
 
-- 
2.43.0


From 8848354ad0ca3875c3dcf14c481b21881953c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:42 +0000
Subject: [PATCH 27/30] fix: tools: skip chunks of wave files with their
 padding, and on pipes

---
 tools/wave.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index f534397..1a9fc94 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -87,6 +87,17 @@ struct wave_data {
 };
 
 
+/**
+ * Skip a chunk of the file, with its padding to an even size
+ */
+static void skip_chunk(FILE *fp, uint32_t size)
+{
+    int64_t n = (int64_t)size + (size & 1);
+
+    if (fseek(fp, n, SEEK_CUR) < 0)
+        while (n-- > 0 && fgetc(fp) != EOF);
+}
+
 /**
  * Read WAVE file header
  */
@@ -112,10 +123,13 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, (8 + (long)format.size) - (long)sizeof(format), SEEK_CUR);
+    if (8 + (int64_t)format.size < (int64_t)sizeof(format))
+        return -1;
+
+    skip_chunk(fp, 8 + format.size - sizeof(format));
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+          ; skip_chunk(fp, data.size) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From f80771f8bbcca29094a585a524495aa74c35fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:42 +0000
Subject: [PATCH 28/30] fix: tools: do not encode the chunks following the data
 of wave files

---
 tools/elc3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index f169e93..c5712b4 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -239,7 +239,9 @@ int main(int argc, char *argv[])
 
     for (int i = 0; (int64_t)i * frame_samples < encode_samples; i++) {
 
-        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
+        int64_t nremain = nsamples - (int64_t)i * frame_samples;
+        int nread = nremain <= 0 ? 0 : wave_read_pcm(fp_in, pcm_sbytes, nchannels,
+            nremain < frame_samples ? nremain : frame_samples, pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
-- 
2.43.0


From f3f2fbde877678bcba7b0a569a3c465e8e87eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:33 +0000
Subject: [PATCH 29/30] fix: tools: conversion of an out of range frame
 duration

---
 tools/elc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index c5712b4..f3c8325 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -159,7 +159,7 @@ int main(int argc, char *argv[])
 
     /* --- Check parameters --- */
 
-    int frame_us = p.frame_ms * 1000;
+    int frame_us = p.frame_ms > 0 && p.frame_ms <= 10 ? p.frame_ms * 1000 : 0;
     int srate_hz, nchannels, nsamples;
     int pcm_sbits, pcm_sbytes;
 
-- 
2.43.0


From d119b8aeb4205edf2efcf093d2ccb2d66e7088f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 30/30] fix: encode frames whose TNS data exceed the frame size

At the smallest sizes, the coefficients of the two TNS filters and the
pitch information can take more bits than the frame has. The budget of
the spectrum was then negative, and the frame, with its data overlapping,
was refused by the decoder. Do without TNS on such frames.
---
 src/lc3.c  | 10 ++++++++++
 src/spec.c | 22 ++++++++++++++++------
 src/spec.h | 10 ++++++++++
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index f450550..e07b7be 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -319,6 +319,16 @@ static void analyze(struct lc3_encoder *encoder,
 
     lc3_tns_analyze(dt, side->bw, nn_flag, nbytes, &side->tns, xf);
 
+    /* With small frames, the TNS data can leave no room for the spectrum,
+     * not even for the first pair, always coded, of 6 bits when null */
+
+    if (lc3_spec_get_nbits(dt, sr,
+            nbytes, side->pitch_present, &side->tns) < 6) {
+
+        lc3_tns_synthesize(dt, side->bw, &side->tns, xf);
+        side->tns.rc_order[0] = side->tns.rc_order[1] = 0;
+    }
+
     lc3_spec_analyze(dt, sr,
         nbytes, side->pitch_present, &side->tns,
         &encoder->spec, xf, &side->spec);
diff --git a/src/spec.c b/src/spec.c
index c589884..a28e46e 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -822,6 +822,21 @@ static int get_nbits_ac(enum lc3_dt dt, enum lc3_srate sr, int nbytes)
         3 + lc3_hr(sr) + LC3_MIN((nbytes-1) / 160, 2);
 }
 
+/**
+ * Bits available for the spectrum
+ */
+int lc3_spec_get_nbits(
+    enum lc3_dt dt, enum lc3_srate sr, int nbytes,
+    bool pitch, const lc3_tns_data_t *tns)
+{
+    const int nbits_gain = 8;
+    const int nbits_nf = 3;
+
+    return 8*nbytes - get_nbits_ac(dt, sr, nbytes) -
+        lc3_bwdet_get_nbits(sr) - lc3_ltpf_get_nbits(pitch) -
+        lc3_sns_get_nbits() - lc3_tns_get_nbits(tns) - nbits_gain - nbits_nf;
+}
+
 /**
  * Spectrum analysis
  */
@@ -835,12 +850,7 @@ void lc3_spec_analyze(
 
     /* --- Bit budget --- */
 
-    const int nbits_gain = 8;
-    const int nbits_nf = 3;
-
-    int nbits_budget = 8*nbytes - get_nbits_ac(dt, sr, nbytes) -
-        lc3_bwdet_get_nbits(sr) - lc3_ltpf_get_nbits(pitch) -
-        lc3_sns_get_nbits() - lc3_tns_get_nbits(tns) - nbits_gain - nbits_nf;
+    int nbits_budget = lc3_spec_get_nbits(dt, sr, nbytes, pitch, tns);
 
     /* --- Global gain --- */
 
diff --git a/src/spec.h b/src/spec.h
index 9284363..eafff7f 100644
--- a/src/spec.h
+++ b/src/spec.h
@@ -40,6 +40,16 @@ typedef struct lc3_spec_side {
  *  Encoding
  * -------------------------------------------------------------------------- */
 
+/**
+ * Bits available for the spectrum
+ * dt, sr, nbytes  Duration, samplerate and size of the frame
+ * pitch, tns      Pitch present indication and TNS bistream data
+ * return          Bit budget, negative when the side data exceed the frame
+ */
+int lc3_spec_get_nbits(
+    enum lc3_dt dt, enum lc3_srate sr, int nbytes,
+    bool pitch, const lc3_tns_data_t *tns);
+
 /**
  * Spectrum analysis
  * dt, sr, nbytes  Duration, samplerate and size of the frame
-- 
2.43.0

