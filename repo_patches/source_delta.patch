From 1bea059ecdfe7ee0aa2629796d498789d8d119d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 01/28] fix: Prandtl number of regions 1, 2 and 5 took 1/T for
 the density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 832d749bbf2880959f96af5886bdc268501a54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 02/28] fix: kinematic viscosity of region 3 multiplied by the
 density instead of dividing

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From 9c5bbd13d08c0eacc31420fe7b9ac512d6193e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 03/28] fix: exergy of region 3 misplaced a parenthesis in the
 entropy

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From 7f3e543d042963de5c6a68c72aeb9657022fbd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 04/28] fix: cv of region 5 divided cp as well by the
 compressibility term

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From 9cbf989b6c36bb04156488262d07d8111eef668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 05/28] fix: isothermal throttling coefficient was not in the
 documented kJ/(kg MPa)

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From 4e99c58e936c67cfb77ba7758d9d30d9223a3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 06/28] fix: v(p,T) of subregion 3l dropped its last
 coefficient

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From 238e481614eb517680f21001b6cd0fb00b0c08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 07/28] fix: subregions 3c and 3k near the critical pressure
 were overwritten by 3u and 3x

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 50c857c17dbbb6dd247f8c9292fd26474a836f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 08/28] fix: (h,s) lower entropy limit of the 2-3 boundary is
 5.048096828

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..be61c96 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -314,7 +314,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if SC_WATER < s && s < 5.049096828 {
+    if SC_WATER < s && s < 5.048096828 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
@@ -328,7 +328,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if 5.049096828 <= s && s < 5.260578707 {
+    if 5.048096828 <= s && s < 5.260578707 {
         // Specific zone with 2-3 boundary in s shape
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-- 
2.43.0


From 8a8201469feba8e3d0ecbc69789fdad967a10ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 09/28] fix: the cdecl API declared pt as stdcall

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From b83d2519c59cca69bbd9d585c318772c2d2a8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 10/28] fix: pt on the saturation line answered 4 for every
 property

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..4f227f2 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -21,7 +21,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        return INVALID_VALUE as f64;
     }
 }
 
-- 
2.43.0


From a03e7a05b92b765d47fa51153c1cde0826c2081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 11/28] fix: fugacity of regions 1 and 3 left out the ideal-gas
 part

---
 src/r1/region1_pT_ext.rs | 6 ++++--
 src/r2/mod.rs            | 2 +-
 src/r3/region3_Td_ext.rs | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index ee58d5d..2be0190 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -25,6 +25,7 @@ use crate::algo::*;
 use crate::common::*;
 use crate::r1::region1_gfe::*;
 use crate::r1::region1_pT::*;
+use crate::r2::region2_gfe::gamma0_reg2;
 
 /// Region1: the extended properties
 pub fn pT_ext_reg1(p: f64, T: f64, o_id: i32) -> f64 {
@@ -170,10 +171,11 @@ pub fn pT2batap_reg1(p: f64, T: f64) -> f64 {
 }
 
 ///fi Fugacity coefficient  
-/// *  fi = exp(g/ R /T)
+/// *  fi = exp((g - g0)/ R /T), g0: ideal gas
 pub fn pT2fi_reg1(p: f64, T: f64) -> f64 {
     let g: f64 = pT2g_reg1(p, T);
-    (g / RGAS_WATER / T).exp()
+    let g0: f64 = T * RGAS_WATER * gamma0_reg2(p / P02, T02 / T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
diff --git a/src/r2/mod.rs b/src/r2/mod.rs
index 660c98a..e5b735e 100644
--- a/src/r2/mod.rs
+++ b/src/r2/mod.rs
@@ -2,7 +2,7 @@
 pub mod region2;
 mod region2_T_ph;
 pub mod region2_T_ps;
-mod region2_gfe;
+pub(crate) mod region2_gfe;
 pub mod region2_pT;
 pub mod region2_pT_ext;
 pub mod region2_p_hs;
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 6f50c04..60acb8f 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -4,6 +4,7 @@
 
 use crate::algo::*;
 use crate::common::*;
+use crate::r2::region2_gfe::gamma0_reg2;
 use crate::r3::region3_hfe::*;
 use crate::r3::*;
 
@@ -156,10 +157,11 @@ pub fn Td2batap_reg3(T: f64, d: f64) -> f64 {
 }
 
 /// fi Fugacity coefficient  
-///  *  fi = exp(g/ R /T)
+///  *  fi = exp((g - g0)/ R /T), g0: ideal gas
 pub fn Td2fi_reg3(T: f64, d: f64) -> f64 {
     let g: f64 = Td2g_reg3(T, d);
-    (g / RGAS_WATER / T).exp()
+    let g0: f64 = T * RGAS_WATER * gamma0_reg2(Td2p_reg3(T, d) / P02, T02 / T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
-- 
2.43.0


From a9590c3e081d25fcdbf27dd028b00653b15c802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 12/28] fix: density of wet steam mixed densities instead of
 volumes

---
 src/r4/region4_pTx.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..c5e3902 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -190,7 +190,11 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
                 rl = pT_reg1(p, T, o_id);
                 rv = pT_reg2(p, T, o_id);
             }
-            r = rl + x * (rv - rl);
+            r = if o_id == OD {
+                1.0 / (1.0 / rl + x * (1.0 / rv - 1.0 / rl)) // the volumes mix, not the densities
+            } else {
+                rl + x * (rv - rl)
+            };
         }
         _ => return INVALID_OUTID as f64,
     }
@@ -223,7 +227,11 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
                 rl = pT_reg1(p, T, o_id);
                 rv = pT_reg2(p, T, o_id);
             }
-            r = rl + x * (rv - rl);
+            r = if o_id == OD {
+                1.0 / (1.0 / rl + x * (1.0 / rv - 1.0 / rl)) // the volumes mix, not the densities
+            } else {
+                rl + x * (rv - rl)
+            };
         }
         _ => return INVALID_OUTID as f64,
     }
-- 
2.43.0


From 648364f539a69a467c27074ff5a9b57343ebf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 13/28] fix: (t,v), (t,s) and (t,h) rejected region 2 above
 863.15 K

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index be61c96..a815ed1 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 9d1ce73b0baa3e158a3882a1148a827117170a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 14/28] fix: pt rejected the lowest pressure between 273.15 K
 and 623.15 K

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index a815ed1..5b6e87e 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -60,7 +60,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From ad6d25036b3c0f26515e7a6cf4a1d09cd11c66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 15/28] fix: density of wet steam above 623.15 K answered -1000

---
 src/r3/region3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3/region3.rs b/src/r3/region3.rs
index 5f861bf..8fda807 100644
--- a/src/r3/region3.rs
+++ b/src/r3/region3.rs
@@ -22,6 +22,7 @@ pub fn Td_reg3(T: f64, d: f64, o_id: i32) -> f64 {
 pub fn Td_thermal_reg3(T: f64, d: f64, o_id: i32) -> f64 {
     match o_id {
         OV => 1.0 / d,
+        OD => d,
         OP => Td2p_reg3(T, d),
         OH => Td2h_reg3(T, d),
         OS => Td2s_reg3(T, d),
-- 
2.43.0


From 4ab380ca75e8e0f0c17ff6f1c310f10caa8020cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 16/28] fix: (p,v) in region 1 answered temperatures that miss
 the volume near the maximum of density

---
 src/algo/root.rs           | 17 +++++++++++
 src/r1/region1_pair_ext.rs | 61 ++------------------------------------
 2 files changed, 20 insertions(+), 58 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index af761fc..3576139 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -93,3 +93,20 @@ pub fn rtsec2(
     }
     return rts;
 }
+
+/// bisect: the x in [x1,x2] where f(x) changes its sign
+pub fn bisect<F: Fn(f64) -> f64>(f: F, mut x1: f64, mut x2: f64) -> f64 {
+    let f1: f64 = f(x1);
+    for _ in 0..I_MAX {
+        let x: f64 = 0.5 * (x1 + x2);
+        if x <= x1.min(x2) || x >= x1.max(x2) {
+            break;
+        }
+        if (f(x) < 0.0) == (f1 < 0.0) {
+            x1 = x;
+        } else {
+            x2 = x;
+        }
+    }
+    0.5 * (x1 + x2)
+}
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..bf7fb12 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -39,64 +39,9 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
     if T >= T_MIN1 && T <= T_MAX1 && r_error.abs() < 1.0e-8 {
         return T;
     };
-    if T < T_MIN1 {
-        T = T_MIN1;
-    };
-    if T > T_MAX1 {
-        T = T_MAX1;
-    }
-
-    // Region 1 : the diff volume is the very small when the diff T is large
-    // so, we need to adjust the T
-    let V_ESPION: f64 = 1.0e-8;
-    let MAX_STEPS: i32 = 1000000;
-    f = v - pT2v_reg1(p, T);
-    r_error = f / v;
-    let mut success: bool = false;
-    let mut steps: i32 = 0;
-    if r_error > 0.0
-    // T^ -> V^, the  v of T is samller than the real value,T is  small
-    {
-        while !success {
-            T += 0.01; //the T is smaller than the real value, so  +T
-            if T > T_MAX1 {
-                return T;
-            };
-            f = v - pT2v_reg1(p, T);
-            r_error = f / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            }
-        }
-    }
-
-    if r_error < 0.0
-    // T^ -> V^, the  v of T is biggerr than the real value,T is  bigger
-    {
-        success = false;
-        steps = 0;
-        while !success {
-            T -= 0.001; //the T is biggerr than the real value,so  -T
-            if T < T_MIN1 {
-                return T_MIN1;
-            };
-            r_error = (v - pT2v_reg1(p, T)) / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            };
-        }
-    };
-    INVALID_VALUE as f64
+    // the volume hardly depends on T near the maximum of density: the secant may leave the region
+    T2 = if p >= 16.5291643 { T_MAX1 } else { T_saturation(p) };
+    bisect(|T| pT2v_reg1(p, T) - v, T2, T_MIN1)
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From 6e846a1051ae4bbb7bff435283a7bd94941df2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:42 +0000
Subject: [PATCH 17/28] fix: (t,v) in region 5 answered the lowest pressure for
 volumes near it

---
 src/r5/region5_pair_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..583dffe 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -69,7 +69,7 @@ pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
     }
 
     let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
+    p1 = p2 - (p2 - p1) * (1.0 / v - 1.0 / v2) / (1.0 / v1 - 1.0 / v2); // p is nearly linear in 1/v
     if p1 < P_MIN5 {
         p1 = P_MIN5;
     }
-- 
2.43.0


From f34ad659693f9fc8db036b09618ca2ce301f4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 18/28] fix: (t,s) in region 1 answered pressures that miss the
 entropy below 4 degrees Celsius

---
 src/r1/region1_pair_ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index bf7fb12..a9098c8 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -109,10 +109,9 @@ pub fn Ts2p_reg1(T: f64, s: f64) -> f64 {
         return p1;
     }
     let mut p: f64 = rtsec1(pT2s_reg1, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX1 {
-        p = P_MAX1;
-    } else if p < pmin1 {
-        p = pmin1;
+    if p > P_MAX1 || p < pmin1 || (s - pT2s_reg1(p, T)).abs() > ESP {
+        // below the temperature of maximum density s is not monotone in p: the secant may leave the region
+        p = bisect(|p| pT2s_reg1(p, T) - s, P_MAX1, pmin1);
     }
     p
 }
-- 
2.43.0


From 132d7dababe364ea9a4ed7d08cf787eb96500208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:22 +0000
Subject: [PATCH 19/28] fix: (t,h) rejected or missed compressed liquid above
 243 degrees Celsius

---
 src/algo/root.rs           |  6 ++++-
 src/common/region.rs       | 28 +++++-------------------
 src/r1/region1_pair_ext.rs | 45 +++++++++++++++++++-------------------
 3 files changed, 33 insertions(+), 46 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index 3576139..94ad61d 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -94,9 +94,13 @@ pub fn rtsec2(
     return rts;
 }
 
-/// bisect: the x in [x1,x2] where f(x) changes its sign
+/// bisect: the x in [x1,x2] where f(x) changes its sign, or the end next to it
 pub fn bisect<F: Fn(f64) -> f64>(f: F, mut x1: f64, mut x2: f64) -> f64 {
     let f1: f64 = f(x1);
+    let f2: f64 = f(x2);
+    if (f1 < 0.0) == (f2 < 0.0) {
+        return if f1.abs() < f2.abs() { x1 } else { x2 };
+    }
     for _ in 0..I_MAX {
         let x: f64 = 0.5 * (x1 + x2);
         if x <= x1.min(x2) || x >= x1.max(x2) {
diff --git a/src/common/region.rs b/src/common/region.rs
index 5b6e87e..5e8827a 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -6,6 +6,7 @@ use crate::common::boundaries::*;
 use crate::common::constant::*;
 use crate::common::propertry_id::*;
 
+use crate::r1::region1_pair_ext::T2p_hmin_reg1;
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
 
@@ -608,30 +609,11 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
-        let mut Hmin: f64 = hsw;
-        let mut p11: f64 = p1 + 0.1;
-        let mut Hmid: f64 = pT2h_reg1(p11, T);
-        if Hmid < Hmin {
-            let mut HminFounded: bool = false;
-
-            while !HminFounded {
-                p11 += 0.1;
-                Hmid = pT2h_reg1(p11, T);
-                if Hmid < Hmin {
-                    Hmin = Hmid;
-                } else {
-                    HminFounded = true;
-                }
-            }
-            if h >= Hmin {
-                return 1;
-            } else {
-                return INVALID_VALUE;
-            };
-        } else {
-            return INVALID_VALUE;
+    if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) {
+        if h >= pT2h_reg1(T2p_hmin_reg1(T), T) {
+            return 1;
         }
+        return INVALID_VALUE;
     };
 
     if (T >= T_MIN2) && (T <= T_MAX1) && (h > hss) && (h < hpmax2) {
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index a9098c8..29dd32a 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -57,34 +57,35 @@ pub fn Tv2p_reg1(T: f64, v: f64) -> f64 {
     return p;
 }
 
-/// Region 1  (T,h)->p using the secant method
+/// Region 1: the pressure in [p_saturation(T),100] where h is the least on the isotherm.
+/// Below it h falls with the pressure (above about 240 degrees Celsius only), above it h rises.
+pub fn T2p_hmin_reg1(T: f64) -> f64 {
+    let mut p1: f64 = p_saturation(T);
+    let mut p2: f64 = P_MAX1;
+    while p2 - p1 > 1.0e-6 {
+        let pl: f64 = p1 + (p2 - p1) / 3.0;
+        let pr: f64 = p2 - (p2 - p1) / 3.0;
+        if pT2h_reg1(pl, T) < pT2h_reg1(pr, T) {
+            p2 = pr;
+        } else {
+            p1 = pl;
+        }
+    }
+    0.5 * (p1 + p2)
+}
+
+/// Region 1  (T,h)->p using the bisection on the branch of h(p) which holds h
 ///  *  T: temperature  K
 ///  *  h: specific enthalpy kJ/kg
 ///  *  p: pressure  MPa
 pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1;
-    let mut p2: f64 = P_MAX1; // p1 + stepa
-    let mut h1 = pT2h_reg1(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    };
-    let mut h2: f64 = pT2h_reg1(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
-    }
-
-    let f1: f64 = h - pT2h_reg1(p1, T);
-    let f: f64 = h - pT2h_reg1(p2, T);
-    let mut p: f64 = rtsec1(pT2h_reg1, T, h, p1, p2, f1, f, ESP, I_MAX);
-
-    if p > P_MAX1 {
-        p = P_MAX1;
-    }
-    if p < pmin1 {
-        p = pmin1;
+    let p_hmin: f64 = T2p_hmin_reg1(T);
+    if h > pT2h_reg1(pmin1, T) || p_hmin - pmin1 < 1.0e-6 {
+        bisect(|p| pT2h_reg1(p, T) - h, if p_hmin - pmin1 < 1.0e-6 { pmin1 } else { p_hmin }, P_MAX1)
+    } else {
+        bisect(|p| pT2h_reg1(p, T) - h, pmin1, p_hmin)
     }
-    p
 }
 
 /// Region 1  (T,s)->p using the secant method
-- 
2.43.0


From 29e4b0e366f97419556a8e80458fca8e24f8dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 20/28] fix: (h,x) and (s,x) answered the ends of the
 saturation line for inputs with no or two solutions

---
 src/r4/region4.rs | 63 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 4f227f2..2dc8679 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -153,11 +153,61 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64,
     T
 }
 
+/// The temperature where Ty2x_residuals(T,x,y,y_id)=0, the lowest one if there are two.
+/// Along a line of constant x, h and s may rise and fall again: they need not reach y, or reach it twice.
+fn yx2T_reg4(x: f64, y: f64, y_id: i32) -> Option<f64> {
+    const STEPS: i32 = 200;
+    const TOL: f64 = 0.00001;
+    const DT: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
+    let mut Tl: f64 = T_MIN4;
+    let mut fl: f64 = Ty2x_residuals(Tl, x, y, y_id);
+    if fl == 0.0 {
+        return Some(Tl);
+    }
+    let mut Tm: f64 = Tl; // where the residual is the least
+    let mut fm: f64 = fl;
+    for i in 1..=STEPS {
+        let Tr: f64 = if i == STEPS { T_MAX4 } else { T_MIN4 + DT * i as f64 };
+        let fr: f64 = Ty2x_residuals(Tr, x, y, y_id);
+        if (fr < 0.0) != (fl < 0.0) {
+            return Some(bisection_reg4(x, y, y_id, Tl, Tr, TOL, 1000));
+        }
+        if fr.abs() < fm.abs() {
+            Tm = Tr;
+            fm = fr;
+        }
+        Tl = Tr;
+        fl = fr;
+    }
+    // both temperatures may lie within one step
+    let mut Tl: f64 = (Tm - DT).max(T_MIN4);
+    let mut Tr: f64 = (Tm + DT).min(T_MAX4);
+    for i in 0..100 {
+        let T1: f64 = Tl + (Tr - Tl) / 3.0;
+        let T2: f64 = Tr - (Tr - Tl) / 3.0;
+        let f1: f64 = Ty2x_residuals(T1, x, y, y_id);
+        let f2: f64 = Ty2x_residuals(T2, x, y, y_id);
+        if f1.abs() < TOL {
+            return Some(T1);
+        }
+        if (f1 < 0.0) != (fm < 0.0) {
+            return Some(bisection_reg4(x, y, y_id, Tl, T1, TOL, 1000));
+        }
+        if f1.abs() < f2.abs() {
+            Tr = T2;
+        } else {
+            Tl = T1;
+        }
+    }
+    None
+}
+
 /// (h,x,o_id)
 pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, h, OH, Tl, Tr, 0.00001, 1000);
+    let T: f64 = match yx2T_reg4(x, h, OH) {
+        Some(T) => T,
+        None => return INVALID_VALUE as f64,
+    };
     if o_id == OT {
         return T - 273.15;
     };
@@ -166,9 +216,10 @@ pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
 
 /// (s,x,o_id)
 pub fn sx_reg4(s: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, s, OS, Tl, Tr, 0.00001, 1000);
+    let T: f64 = match yx2T_reg4(x, s, OS) {
+        Some(T) => T,
+        None => return INVALID_VALUE as f64,
+    };
     if o_id == OT {
         return T - 273.15;
     };
-- 
2.43.0


From 7b3c62419a476c473eb427bdd4011728b2c13e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 21/28] fix: (t,s) in region 2 answered pressures that miss the
 entropy below 5 Pa

---
 src/r2/region2_pair_ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 57bc85c..d659102 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -264,10 +264,9 @@ pub fn Ts2p_reg2(T: f64, s: f64) -> f64 {
         return p1;
     }
     let mut p: f64 = rtsec1(pT2s_reg2, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p < P_MIN2 {
-        p = P_MIN2;
-    } else if p > pmax2 {
-        p = pmax2;
+    if p < P_MIN2 || p > pmax2 || (s - pT2s_reg2(p, T)).abs() > ESP {
+        // s is logarithmic in p: at low pressures the secant may leave the region
+        p = bisect(|p| pT2s_reg2(p, T) - s, pmax2, P_MIN2);
     }
     p
 }
-- 
2.43.0


From f320da0b1201ec4387133462d4f163908ac91fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 22/28] fix: (p,v) took liquid volumes for steam below the
 triple pressure and rejected wet steam at it

---
 src/common/region.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 5e8827a..896909a 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -443,7 +443,9 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vt623: f64 = 0.0;
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if p < P_MIN {
+        vss = pT2v_reg2(p, 273.15); // steam down to 273.15 K
+    } else if p <= P_MIN3 {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
@@ -472,10 +474,10 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
-    if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
+    if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
         return 5;
     };
     INVALID_VALUE
-- 
2.43.0


From 506b98c01b7b18cd0a03d5f2ac7e6bec5c343003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 23/28] fix: (h,s) wet steam missed or never terminated, and
 inputs beyond regions 1, 2 and 5 were accepted

---
 src/common/boundaries.rs | 14 ++++---
 src/common/region.rs     | 28 ++++++++++----
 src/r4/region4_T_hs.rs   | 82 ++++++++--------------------------------
 3 files changed, 45 insertions(+), 79 deletions(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..84901b2 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -91,6 +91,10 @@ pub fn s2p_sat_reg3(s: f64) -> f64 {
 
 ///  Equations of (h,s) for the Region Boundaries
 
+/// The limits of the boundary equations are given to 10 digits, those of the regions are computed:
+/// between the two, the boundary equations still hold
+const S_ROUND: f64 = 1.0e-9;
+
 /// Define the saturated line boundary between Region 1 and 4, h=f(s)
 ///  * Eq 3  <http://www.iapws.org/relguide/Supp-phs3-2014.pdf>
 pub fn hs_region_h1_s(s: f64) -> f64 {
@@ -125,7 +129,7 @@ pub fn hs_region_h1_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < -1.545495919e-4 || s > 3.77828134 {
+    if s < -1.545495919e-4 - S_ROUND || s > 3.77828134 + S_ROUND {
         return INVALID_S as f64;
     }
 
@@ -159,7 +163,7 @@ pub fn hs_region_h3a_s(s: f64) -> f64 {
         (32, 6, 0.631052532240980E+0),
     ];
     // Check input parameters
-    if s < 3.77828134 || s > SC_WATER {
+    if s < 3.77828134 - S_ROUND || s > SC_WATER {
         return INVALID_S as f64;
     }
 
@@ -205,7 +209,7 @@ pub fn hs_region_h2ab_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < 5.85 || s > 9.155759395 {
+    if s < 5.85 || s > 9.155759395 + S_ROUND {
         return INVALID_S as f64;
     }
 
@@ -259,7 +263,7 @@ pub fn hs_region_h13_s(s: f64) -> f64 {
         (6, -3, -0.690815545851641E+02),
     ];
 
-    if s < 3.397782955 || s > 3.77828134 {
+    if s < 3.397782955 - S_ROUND || s > 3.77828134 + S_ROUND {
         return INVALID_S as f64;
     };
 
@@ -300,7 +304,7 @@ pub fn hs_region_t_hs(h: f64, s: f64) -> f64 // _t23_hs(h, s)
         (14, 1, 0.783237062349385E+07),
     ];
     // Check input parameters
-    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 || h > 2.812942061e3 {
+    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 - 1.0e-6 || h > 2.812942061e3 + 1.0e-6 {
         return INVALID_HS as f64;
     }
 
diff --git a/src/common/region.rs b/src/common/region.rs
index 896909a..a95bd15 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -2,6 +2,7 @@
 //! * Basic input pairs :  (p,T) (p,h) (p,s) (h,s)  
 //! * Extented input pairs:: (p,v) (t,v) (t,h)
 
+use crate::algo::root::bisect;
 use crate::common::boundaries::*;
 use crate::common::constant::*;
 use crate::common::propertry_id::*;
@@ -231,6 +232,12 @@ pub fn ps_sub_region(p: f64, s: f64) -> i32 {
     INVALID_VALUE
 }
 
+/// the highest h of region 2 at s, on the 1073.15 K line(regions 2 and 5 do not quite meet at it)
+fn hs_region_hmax_reg2(s: f64) -> f64 {
+    let p: f64 = bisect(|p| pT2s_reg2(p, 1073.15) - s, P_MIN, 100.0);
+    pT2h_reg2(p, 1073.15) + 0.1
+}
+
 ///  region 1,2,3,4 (smin ->smax), region 5
 pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     let mut T: f64 = 0.0;
@@ -266,13 +273,22 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
-        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
+        // the inversion is clamped to the limits of region 5: (h,s) beyond them is not met
+        let solved: bool = (h - pT2h_reg5(p, T)).abs() < 1.0e-5 && (s - pT2s_reg5(p, T)).abs() < 1.0e-7;
+        if solved && 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
             return 5;
         }
     };
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
-        hs = hs_region_h1_s(s);
+        if s < s4l {
+            // no saturated liquid: liquid down to 273.15 K
+            p = bisect(|p| pT2s_reg1(p, 273.15) - s, P_MIN, 100.0);
+            hs = pT2h_reg1(p, 273.15);
+            hmin = hs;
+        } else {
+            hs = hs_region_h1_s(s);
+        }
         T = ps2T_reg1(100.0, s) - 0.0218;
         hmax = pT2h_reg1(100.0, T);
         if hmin <= h && h < hs {
@@ -389,8 +405,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if sTPmax <= s && s < s2ab {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = hs_region_hmax_reg2(s);
         if hmin <= h && h < hs {
             return 4;
         }
@@ -402,8 +417,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s2ab <= s && s < s4v {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = hs_region_hmax_reg2(s);
         if hmin <= h && h < hs {
             return 4;
         }
@@ -415,7 +429,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s4v <= s && s <= smax {
         hmin = pT2h_reg2(P_MIN, 273.15);
         p = hs2p_reg2a(h, s); //hs2p_reg2a r2::region2_p_hs
-        hmax = pT2h_reg2(p, 1073.15);
+        hmax = hs_region_hmax_reg2(s);
         if P_MIN <= p && p <= 100.0 && hmin <= h && h <= hmax {
             return 2;
         }
diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..07f570b 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -76,73 +76,21 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     };
 
     //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-    let mut p_Low_Bound: f64 = 0.0;
-    let mut p_High_Bound: f64 = 0.0;
-    let mut PL: f64 = 0.0;
-    let mut Tsat: f64 = 0.0;
-
-    if s > s4L_273 && s <= s4L_623 {
-        p_Low_Bound = P_MIN;
-        p_High_Bound = Ps_623;
-
-        let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
-            PL = 0.5 * (p_Low_Bound + p_High_Bound);
-            Tsat = T_saturation(PL);
-            hL = pT2h_reg1(PL, Tsat);
-            if hL > h {
-                p_High_Bound = PL;
-            } else {
-                p_Low_Bound = PL;
-            }
-        }
+    // At constant h, the entropy of wet steam falls with the pressure, up to the saturation line
+    let p_max: f64 = PC_WATER - 1.0e-6; // short of the critical point, where the mixture has no quality
+    let p_High_Bound: f64 = if h < HC_WATER {
+        bisect(|p| p2sat_water(p, OH) - h, P_MIN, p_max)
+    } else {
+        bisect(|p| p2sat_steam(p, OH) - h, Ps_623, p_max)
     };
-
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-
-    let mut sss: f64 = -1000.0;
-    let mut p: f64 = 0.0;
-    let mut xs: f64;
-    let mut s4v: f64;
-    let mut s4L: f64;
-    let mut v4v: f64;
-    let mut v4L: f64;
-
-    while (s - sss).abs() > 1.0e-6 {
-        p = 0.5 * (p_Low_Bound + p_High_Bound);
-
-        Tsat = T_saturation(p);
-        xs = ph_reg4(p, h, OX); // region4_phps
-
-        if p < Ps_623 {
-            s4v = pT2s_reg2(p, Tsat);
-            s4L = pT2s_reg1(p, Tsat);
-        } else {
-            v4v = ph_reg3(p, p2sat_steam(p, OH), OV);
-            s4v = Td2s_reg3(Tsat, 1.0 / v4v);
-            v4L = ph_reg3(p, p2sat_water(p, OH), OV);
-            s4L = Td2s_reg3(Tsat, 1.0 / v4L);
-        };
-
-        sss = xs * s4v + (1.0 - xs) * s4L;
-
-        if sss < s {
-            p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
-        } else {
-            p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
-        }
-    } // end of while  ( abs(s - sss).abd() > 1.0e-6)
-
+    let p: f64 = bisect(
+        |p| {
+            let h4L: f64 = p2sat_water(p, OH);
+            let xs: f64 = (h - h4L) / (p2sat_steam(p, OH) - h4L);
+            xs * p2sat_steam(p, OS) + (1.0 - xs) * p2sat_water(p, OS) - s
+        },
+        P_MIN,
+        p_High_Bound,
+    );
     T_saturation(p)
 }
-- 
2.43.0


From bf3898b94fcab9ec74f94c39f49aa7d6f0528e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 24/28] fix: (t,v) in region 2 answered pressures that miss the
 volume below 1e-6 MPa

---
 src/r2/region2_pair_ext.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index d659102..54470ae 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -147,10 +147,7 @@ pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
     }
 
     let f2: f64 = v - v2;
-    let pmid: f64 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if v < pT2v_reg2(pmid, T) {
-        p1 = pmid;
-    }
+    p1 = p2 - (p2 - p1) * (1.0 / v - 1.0 / v2) / (1.0 / v1 - 1.0 / v2); // p is nearly linear in 1/v
     if p1 < P_MIN2 {
         p1 = P_MIN2;
     }
-- 
2.43.0


From 9f3cab29c5b517cf6ec3dfd3b1e9b6961dcd0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 25/28] fix: (h,x) and (s,x) stopped at 1e-5 of the quality,
 0.03 K off the temperature

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 2dc8679..e07d295 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -157,7 +157,7 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64,
 /// Along a line of constant x, h and s may rise and fall again: they need not reach y, or reach it twice.
 fn yx2T_reg4(x: f64, y: f64, y_id: i32) -> Option<f64> {
     const STEPS: i32 = 200;
-    const TOL: f64 = 0.00001;
+    const TOL: f64 = 1.0e-8;
     const DT: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
     let mut Tl: f64 = T_MIN4;
     let mut fl: f64 = Ty2x_residuals(Tl, x, y, y_id);
-- 
2.43.0


From f32b08d079efeb5185e551f92aa6d1120ad211ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 26/28] fix: (h,s) wet steam near 273.15 K was answered below
 it, without a pressure

---
 src/r4/region4_T_hs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 07f570b..1addf2b 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -72,7 +72,7 @@ pub fn hs2T_reg43(h: f64, s: f64) -> f64 {
 
 pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     if s > s4V_623 && s < s4V_273 {
-        return hs2T_reg43(h, s);
+        return hs2T_reg43(h, s).max(273.15); // its error may fall below the saturation line
     };
 
     //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
@@ -92,5 +92,5 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
         P_MIN,
         p_High_Bound,
     );
-    T_saturation(p)
+    T_saturation(p).max(273.15)
 }
-- 
2.43.0


From 9d7fe17f298368bd8c4c4496f6d7f99896bc1edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:30 +0000
Subject: [PATCH 27/28] fix: (p,v) in region 2 moved converged temperatures of
 thin steam by 0.001 K

---
 src/r2/region2_pair_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 54470ae..e7a68a8 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -72,7 +72,7 @@ pub fn pv2T_reg2(p: f64, v: f64) -> f64 {
     let mut steps: i32 = 0;
     let MAX_STEPS: i32 = 1000;
     let mut success: bool = true;
-    if (v0 - v).abs() > ESP {
+    if (v0 - v).abs() > ESP * (1.0 + v / T) { // T is solved within ESP
         success = false;
     }
 
-- 
2.43.0


From bbbda1800055126c8bd8d3888203c2ffe1a98a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 28/28] fix: (p,v), (t,v), (t,h) and (t,s) divided by zero at
 the critical pressure and temperature

---
 src/common/region.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index a95bd15..ee9aa25 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -467,7 +467,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         vt623 = pT2v_reg1(p, 623.15);
         T1 = B23_p2T(p);
         vB23 = pT2v_reg2(p, T1); //
-        if p <= PC_WATER {
+        if p < PC_WATER {
             T1 = T_saturation(p);
             vsw = pT2v_sat_reg3(p, T1, 0.0);
             vss = pT2v_sat_reg3(p, T1, 1.0);
@@ -483,12 +483,12 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 2;
     };
-    if ((p > P_MIN3) && (p <= PC_WATER) && (((v > vt623) && (v < vsw)) || ((v > vss) && (v < vB23))))
-        || ((p > PC_WATER) && (p <= P_MAX3) && (v > vt623) && (v < vB23))
+    if ((p > P_MIN3) && (p < PC_WATER) && (((v > vt623) && (v < vsw)) || ((v > vss) && (v < vB23))))
+        || ((p >= PC_WATER) && (p <= P_MAX3) && (v > vt623) && (v < vB23))
     {
         return 3;
     };
-    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p < PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
     if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
@@ -540,7 +540,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         vB23 = pT2v_reg2(p1, T); //
-        if T <= TC_WATER {
+        if T < TC_WATER {
             p1 = p_saturation(T);
             vsw = pT2v_sat_reg3(p1, T, 0.0);
             vss = pT2v_sat_reg3(p1, T, 1.0);
@@ -557,13 +557,13 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     {
         return 2;
     };
-    if ((T > T_MIN3) && (T <= TC_WATER) && (((v > vss) && (v < vB23)) || ((v >= vp100) && (v < vsw))))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (v >= vp100) && (v < vB23))
+    if ((T > T_MIN3) && (T < TC_WATER) && (((v > vss) && (v < vB23)) || ((v >= vp100) && (v < vsw))))
+        || ((T >= TC_WATER) && (T <= T_MAX3) && (v >= vp100) && (v < vB23))
     {
         return 3;
     };
 
-    if (T >= T_MIN1) && (T <= TC_WATER) && (v >= vsw) && (v <= vss) {
+    if (T >= T_MIN1) && (T < TC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::Tv2x_reg4
     };
 
@@ -611,7 +611,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         hB23 = pT2h_reg2(p1, T);
-        if T <= TC_WATER {
+        if T < TC_WATER {
             p1 = p_saturation(T);
             let mut v: f64 = pT2v_sat_reg3(p1, T, 0.0);
             hsw = Td2h_reg3(T, 1.0 / v);
@@ -641,14 +641,14 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
         return 2;
     };
-    if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
+    if (T > T_MIN3) && (T < TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
+        || ((T >= TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
         return 3;
     };
 
     //  (t,h)
-    if (T >= T_MIN1) && (T <= TC_WATER) && (h >= hsw) && (h <= hss) {
+    if (T >= T_MIN1) && (T < TC_WATER) && (h >= hsw) && (h <= hss) {
         return 4;
     };
 
@@ -705,7 +705,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         sB23 = pT2s_reg2(p1, T); //
-        if T <= TC_WATER {
+        if T < TC_WATER {
             p1 = p_saturation(T);
             let mut v: f64 = pT2v_sat_reg3(p1, T, 0.0);
             ssw = Td2s_reg3(T, 1.0 / v);
@@ -723,12 +723,12 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     {
         return 2;
     };
-    if ((T > T_MIN3) && (T <= TC_WATER) && (((s > sss) && (s < sB23)) || ((s >= sp100) && (s < ssw))))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (s >= sp100) && (s < sB23))
+    if ((T > T_MIN3) && (T < TC_WATER) && (((s > sss) && (s < sB23)) || ((s >= sp100) && (s < ssw))))
+        || ((T >= TC_WATER) && (T <= T_MAX3) && (s >= sp100) && (s < sB23))
     {
         return 3;
     };
-    if (T >= T_MIN1) && (T <= TC_WATER) && (s >= ssw) && (s <= sss) {
+    if (T >= T_MIN1) && (T < TC_WATER) && (s >= ssw) && (s <= sss) {
         return 4;
     };
     if (T > T_MIN5) && (T <= T_MAX5) && (s >= sp50) && (s <= spmax5) {
-- 
2.43.0

