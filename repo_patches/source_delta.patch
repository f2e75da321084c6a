From 096465c62873921b63a13f02eb2270c69db46172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 01/11] fix: mrcal_compose_rt_full(): dt_t0 may be requested
 without dt_t1 when inverted0 && !inverted1

---
 poseutils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..9c6bb7b 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,9 +861,10 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+        double dt_t10[9];
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
-                                   dt_t1, dt_t1_stride0, dt_t1_stride1,
+                                   dt_t10, -1, -1,
 
                                    rt0, -1,
                                    t10, -1,
@@ -876,11 +877,16 @@ void mrcal_compose_rt_full( // output
                 for(int j=0; j<3; j++)
                     P2(dt_r1,i,j) = 0.;
 
+        if(dt_t1 != NULL)
+            for(int i=0; i<3; i++)
+                for(int j=0; j<3; j++)
+                    P2(dt_t1,i,j) = dt_t10[3*i+j];
+
         // dt01/dt0 = -dt01/dt1
         if(dt_t0 != NULL)
             for(int i=0; i<3; i++)
                 for(int j=0; j<3; j++)
-                    P2(dt_t0,i,j) = -P2(dt_t1,i,j);
+                    P2(dt_t0,i,j) = -dt_t10[3*i+j];
     }
     else if(!inverted0 && inverted1)
     {
-- 
2.43.0


From cca637bf1a414740b625b5d1efa50b6f0ae1bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 02/11] fix: mrcal_project_pinhole(): write each point's
 projection to its own q[i], instead of all to q[0]

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..3ce40fa 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From e030ae7cfadc60fc3739088ac70fd9143434d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 03/11] fix: mrcal_project(): write each point's dq_dp to its
 own block if dq_dintrinsics is NULL and N>1

---
 mrcal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 3ce40fa..047bfe8 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2903,6 +2903,10 @@ bool _mrcal_project_internal( // out
                      intrinsics, NULL, &frame, NULL, true,
                      lensmodel, precomputed,
                      0.0, 0,0);
+
+            // advance
+            if(dq_dp != NULL)
+                dq_dp = &dq_dp[2];
         }
         return true;
     }
-- 
2.43.0


From cf52cfd5f6c738b938937726842ee623ce1b0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 04/11] fix: CAHVORE points that cannot be projected: zero both
 rows of the gradients

---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 047bfe8..63e7a83 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2505,10 +2505,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, 2*sizeof(*dq_drcamera));
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, 2*sizeof(*dq_dtcamera));
+            if(dq_drframe)              memset(dq_drframe,              0, 2*sizeof(*dq_drframe));
+            if(dq_dtframe)              memset(dq_dtframe,              0, 2*sizeof(*dq_dtframe));
 
         }
     }
-- 
2.43.0


From a1296fedb835c6d3570c0b03c1ec9159f39e3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 05/11] fix: rotate_point_r(): small-angle branch: include the
 cos(th) ~ 1-th^2/2 term, so that the gradients are right

---
 poseutils-uses-autodiff.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poseutils-uses-autodiff.cc b/poseutils-uses-autodiff.cc
index 0669d8b..1a6ea3a 100644
--- a/poseutils-uses-autodiff.cc
+++ b/poseutils-uses-autodiff.cc
@@ -57,9 +57,11 @@ rotate_point_r_core(// output
         //     = x + cross(r, x) + r rt x lim(th->0, (1 - cos(th)) / (th*th))
         //     = x + cross(r, x) + r rt x lim(th->0, sin(th) / (2*th))
         //     = x + cross(r, x) + r rt x/2
+        // The x term is x cos(th) ~ x (1 - th^2/2). I need that th^2 term for
+        // the gradients to be correct: it is the same order as the r rt x/2
         for(int i=0; i<3; i++)
             x_outg[i] =
-                x_ing[i] +
+                x_ing[i]*(val_withgrad_t<N>(1.) - th2/2.) +
                 cross[i] +
                 rg[i]*inner / 2.;
     }
-- 
2.43.0


From 8af65f1018628ad8330085226225638d8c099ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 06/11] fix: Lindstrom triangulation: step 12 used the inverse
 of the documented factor

The factor is 2*d/( inner(n,n) + inner(nn,nn) ), as in the comment and in the
paper. With its inverse the corrected rays did not quite intersect
---
 triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..b3564c3 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -369,7 +369,7 @@ mrcal_triangulate_lindstrom(// outputs
     // Step 12. l *= 2*d/( nps.inner(n,n) + nps.inner(nn,nn) )
     val_withgrad_t<18> bb = (n [0]*n [0] + n [1]*n [1] +
                              nn[0]*nn[0] + nn[1]*nn[1]) * 0.5;
-    l = l/d * bb;
+    l = l*d / bb;
 
     // Step 13. dx  = l*n
     dx[0] = l * n[0];
-- 
2.43.0


From 33f977fc952657510bf983e82bc8f42ba98ab7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 07/11] fix: mrcal_corresponding_icam_extrinsics() reported
 -100 for a camera with no observations

An unobserved camera has no known extrinsics: report an error instead of
returning success with an internal sentinel as the index
---
 mrcal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 63e7a83..1f7e094 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3967,6 +3967,13 @@ bool mrcal_corresponding_icam_extrinsics(// out
                                                    "point"))
             return false;
 
+    if(icam_map_to_extrinsics[icam_intrinsics] == -100)
+    {
+        MSG("Cannot compute icam_extrinsics. No observations of icam_intrinsics=%d",
+            icam_intrinsics);
+        return false;
+    }
+
     *icam_extrinsics = icam_map_to_extrinsics[icam_intrinsics];
 
     return true;
-- 
2.43.0


From 78dc1d729c19355ea3bfe76742942d69df781ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 08/11] fix: image accessors mis-addressed rows whose stride
 isn't a multiple of the pixel size

The stride is given in bytes. Dividing it by sizeof(T) dropped the remainder (a
bgr image with padded rows, for instance), and was done in unsigned arithmetic
---
 image.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..079c585 100644
--- a/image.h
+++ b/image.h
@@ -60,6 +60,7 @@ extern "C" {
 // mrcal_image_bgr_load() converts images to 24-bpp color
 
 #include <stdint.h>
+#include <stddef.h>
 #include <stdbool.h>
 
 
@@ -83,13 +84,14 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* The stride is in bytes, and may not be divisible by sizeof(T) */ \
+    return &((T*)((uint8_t*)image->data + (ptrdiff_t)y*image->stride))[x]; \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return &((const T*)((const uint8_t*)image->data + (ptrdiff_t)y*image->stride))[x]; \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From 2b578f005dfe943cd364106a30d649f0982ce834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 09/11] fix: stretch equalization computed the wrong maximum,
 and divided by 0 in constant images

The largest pixel was ignored if it also was a new minimum when encountered (the
first pixel in the image, for instance). All the larger-than-max pixels would
then overflow the uint8 output
---
 image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..5362565 100644
--- a/image.c
+++ b/image.c
@@ -383,13 +383,16 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
     uint16_t max_min = max-min;
 
+    // A constant image has no contrast to stretch; don't divide by 0
+    if(max_min == 0) max_min = 1;
+
     for(int i=0; i<in->height; i++)
     {
         const uint16_t* row_in  = mrcal_image_uint16_at_const(in,  0, i);
-- 
2.43.0


From 59ae953873ef3fae2ffa10a73734e6e42c26228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 10/11] fix: apply_color_map() mishandled negative
 floating-point limits

FLT_MIN and DBL_MIN are the smallest POSITIVE numbers, so negative data never
updated the automatic maximum, and the Python wrapper clamped negative limits to
FLT_MIN
---
 mrcal-genpywrap.py | 4 ++--
 stereo.c           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..c203ba9 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}', '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
diff --git a/stereo.c b/stereo.c
index ec97040..708ede3 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1234,8 +1234,8 @@ DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
 DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
 DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
 
 
 
-- 
2.43.0


From a7f4c88900720aba54c1ccf690b9c4673af4bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 11/11] fix: apply_color_map() overflowed with wide ranges of
 signed integers

The differences between int32 or int64 values may not fit into that type: such
data produced undefined behavior and wrong colors
---
 stereo.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/stereo.c b/stereo.c
index 708ede3..fb5c638 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1143,7 +1143,13 @@ gnuplot_color_formula(uint8_t* out,
 //        36: 2*x - 1
 //      * negative numbers mean inverted=negative colour component
 //      * thus the ranges in `set pm3d rgbformulae' are -36..36
-#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX)               \
+
+// a-b for a>b. The difference between two signed integers may not fit into the
+// signed type, but it always fits into the unsigned one
+#define DIFFERENCE_INTEGER(a,b) ((uint64_t)(a) - (uint64_t)(b))
+#define DIFFERENCE_FLOAT(  a,b) ((a) - (b))
+
+#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX,DIFFERENCE)    \
     bool mrcal_apply_color_map_##Tname(                                 \
         mrcal_image_bgr_t*    out,                                      \
         const mrcal_image_##Tname##_t* in,                              \
@@ -1212,7 +1218,8 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                x = (float)DIFFERENCE(*in_T,  in_min) /                 \
+                    (float)DIFFERENCE(in_max, in_min);                  \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
@@ -1224,18 +1231,18 @@ gnuplot_color_formula(uint8_t* out,
     return true;                                                        \
 }
 
-DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX)
-DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX)
-DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX)
-DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX)
+DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX, DIFFERENCE_INTEGER)
 
-DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX)
-DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
-DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
-DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
+DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX, DIFFERENCE_INTEGER)
+DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX, DIFFERENCE_INTEGER)
 
-DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX, DIFFERENCE_FLOAT)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX, DIFFERENCE_FLOAT)
 
 
 
-- 
2.43.0

