From decb2a78847cd8e52abb7efd96111aca3087685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 01/55] fix: E_phi weighting adds the [i+1][k+1] node to E_phi,
 not to E_z

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From 7cc4cd0ae6b1f0dc7b42aae1be0f785e09db2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:19 +0000
Subject: [PATCH 02/55] fix: initialise the relativistic flag of the adaptive
 Boris pusher for every particle

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From d6db48e3b5bf4b5b3b6e557a4863ad7f5f20f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 03/55] fix: normalise velocities by the light velocity in the
 Lorentz factor of the Vay pusher

---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From 552758d3a0f8f4d140e75373e777fe0b9e7149e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 04/55] fix: normalise velocities by the light velocity in the
 Lorentz factor of the Higuera-Cary pusher

---
 src/pusher/pusherHC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..901f324 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
-- 
2.43.0


From 24476c75ca933ddb71af050d50c3aa5a8b2097df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 05/55] fix: magnetic rotation of the Higuera-Cary pusher used
 wrong components of the field

---
 src/pusher/pusherHC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 901f324..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From b619b875b872ee64d40f418a000fd4f5f536ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 06/55] fix: apply the Lorentz factor to momenta of
 relativistic, not of slow particles

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..c29d21d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -729,7 +729,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -761,7 +761,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From cb686c85c4ab57b2181b3bc7952313761956ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 07/55] fix: calculate absolute momentum map before it is used
 for temperature

---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index c29d21d..476cf12 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From 045d25758c4f79cd114c10d26c6d1e1e91e8dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 08/55] fix: turn velocity to the basis of the new azimuth in
 proper direction

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 476cf12..ac13d80 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From aecc6fb352cc89ac26a11b4bb517d5385ef9f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 09/55] fix: THREE_OVER_4 is 3/4

---
 include/constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/constant.hpp b/include/constant.hpp
index 95b01eb..c1d8dfb 100644
--- a/include/constant.hpp
+++ b/include/constant.hpp
@@ -31,7 +31,7 @@ namespace constant
   const double ONE_OVER_3 = 1. / 3.;
   const double TWO_OVER_3 = 2. / 3.;
   const double FOUR_OVER_3 = 4. / 3.;
-  const double THREE_OVER_4 = 4. / 3.;
+  const double THREE_OVER_4 = 3. / 4.;
   // PI constant
   const double PI = 3.1415926535897932;
   // Vacuum permittivity (electric constant), F*m(e-1)
-- 
2.43.0


From 28b4c3038c872efbf7088ba251b12107b5f1a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 10/55] fix: store to not aligned memory in sqrt_recip

---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..067559b 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -35,7 +35,7 @@ namespace algo::common
     double d[4];
     __m256d c = _mm256_sqrt_pd(_mm256_set_pd(x, 0, 0, 0));
 
-    _mm256_store_pd(d, c);
+    _mm256_storeu_pd(d, c);
 
     return d[3];
   }
-- 
2.43.0


From 95c9501490e2e5c6f8e6e1be8f5a1c29a9ed27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 11/55] fix: buffer overflow and memory leak in
 get_simulation_duration

---
 src/algo/common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 067559b..57d0ad1 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,7 +66,7 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
@@ -76,14 +76,14 @@ namespace algo::common
     {
       min = (int)time_sec / sec_in_min;
       sec = time_sec - min * sec_in_min;
-      sprintf(the_time, "%dm %.0fs", min, sec);
+      snprintf(the_time, sizeof(the_time), "%dm %.0fs", min, sec);
     }
     else if (time_sec > sec_in_hr && time_sec < sec_in_day)
     {
       hr = (int)time_sec / sec_in_hr;
       min = (int)((time_sec - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dh %dm %.0fs", hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dh %dm %.0fs", hr, min, sec);
     }
     else if (time_sec > sec_in_day)
     {
@@ -91,10 +91,10 @@ namespace algo::common
       hr = (int)((time_sec - d * sec_in_day) / sec_in_hr);
       min = (int)((time_sec - d * sec_in_day - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - d * sec_in_day - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dd %dh %dm %.0fs", d, hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dd %dh %dm %.0fs", d, hr, min, sec);
     }
     else
-      sprintf(the_time, "%.0fs", time_sec);
+      snprintf(the_time, sizeof(the_time), "%.0fs", time_sec);
 
     return (std::string)the_time;
   }
-- 
2.43.0


From a4e4d2f6112021029286fac1b40e0f7795b72f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:03 +0000
Subject: [PATCH 12/55] fix: order of temperatures in Debye length of
 configuration checks

---
 src/cfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..7c5e2cf 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -651,7 +651,7 @@ bool Cfg::method_limitations_check ()
 
   // cell size d{r,z} < \lambda debye
 
-  double debye_length = phys::plasma::debye_length (electron_density, ion_density, ion_temperature, electron_temperature);
+  double debye_length = phys::plasma::debye_length (electron_density, ion_density, electron_temperature, ion_temperature);
   unsigned int debye_multiplicator = 100;
 
   if ( electron_temperature != 0)
-- 
2.43.0


From cc69f4869d0858e5fbb23b32aa1c89f1fdc404da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:05 +0000
Subject: [PATCH 13/55] fix: corner overlay of not square sub-domains used the
 size of the wrong dimension

---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From 61f61b9af503e011c803a2be5761aee25a32fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 14/55] fix: turn velocity to the new azimuth before mirroring
 its radial component at the walls

---
 src/SMB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..7d74dcd 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1296,9 +1296,9 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
+      sim_domain->particles_back_velocity_to_rz(); // to new azimuth, before mirroring radial component
 
-      sim_domain->particles_back_velocity_to_rz();
+      sim_domain->reflect();
 
       sim_domain->bind_cell_numbers();
     }
-- 
2.43.0


From 08ed50061a1ec8b0209b40e7b97fb414de333372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 15/55] fix: builds with Coulomb collisions (stale call of
 Collisions::run, unbalanced preprocessor condition)

---
 include/domain.hpp | 2 +-
 src/domain.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From cff5ebf67e8f270bcc0a01a4fa18bbb4a86820ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 16/55] fix: include build options before the headers that
 depend on them (builds with MPI)

---
 include/SMB.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/SMB.hpp b/include/SMB.hpp
index 64bce63..3c79668 100644
--- a/include/SMB.hpp
+++ b/include/SMB.hpp
@@ -18,6 +18,11 @@
 #ifndef _SMB_HPP_
 #define _SMB_HPP_
 
+#include <cstdint>
+#include <climits>
+
+#include "defines.hpp"
+
 #ifdef _OPENMP
 #include <omp.h>
 // #else
@@ -29,7 +34,6 @@
 // using namespace MPI;
 #endif // ENABLE_MPI
 
-#include "defines.hpp"
 #include "constant.hpp"
 #include "msg.hpp"
 #include "algo/grid.hpp"
-- 
2.43.0


From 5a9da0e1215e092d7bb69b06c61b94246fabe348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 17/55] fix: report particles that jump over more than one cell
 along z

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..0a9b258 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -196,7 +196,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From 14142f2c1cf3c6430766074becd799db796e6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 18/55] fix: axial motion of a particle erased radial current
 of other particles

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 0a9b258..73144e7 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -543,11 +543,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From b47dd3f22df62e5241ccc925f450101037255f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 19/55] fix: operator precedence in current of radial motion
 over a cell border

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 73144e7..075fb37 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From 1c72373d632a6fd4ebd5af1d12662c4135e113ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 20/55] fix: azimuthal current in halo cells was dropped before
 the exchange between domains (halo is cleared in Domain::reset_current)

---
 src/current/currentVB.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 075fb37..9441d1b 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
@@ -397,8 +395,6 @@ void CurrentVB::rz_current_distribution()
 
 void CurrentVB::azimuthal_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 4d8df366fb0421eb47471c05480d3459820d97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 21/55] fix: current of a particle leaving inwards exactly from
 a cell border

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 9441d1b..f9e4401 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -222,7 +222,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (i_o > i_n)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
-- 
2.43.0


From 310205826e22bb03a73a796fd58725ccf40d45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 22/55] fix: current of a particle passing exactly through a
 cell corner was lost

---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index f9e4401..4d2d536 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -299,7 +299,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -323,7 +323,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -352,7 +352,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -378,7 +378,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From 79709c331b37ee0f84afe6bb3227c53540c35b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 23/55] fix: azimuthal current was weighted by the cell of the
 new position instead of the middle point

---
 src/current/currentVB.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4d2d536..3157d90 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -408,9 +408,13 @@ void CurrentVB::azimuthal_current_distribution()
       double rho = 0; // charge density in cell
       double wj; // j_phi in cell
 
+      // weight at the middle point of the way
+      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
+      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;
+
       // finding number of i and k cell
-      int r_i = P_CELL_R((**i));
-      int z_k = P_CELL_Z((**i));
+      int r_i = CELL_NUMBER(pos_r, dr);
+      int z_k = CELL_NUMBER(pos_z, dz);
 
       double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
       double v_2 = CELL_VOLUME(r_i + 1, dr, dz);  // volume of [i + 1][k] cell
@@ -421,8 +425,6 @@ void CurrentVB::azimuthal_current_distribution()
       int r_i_shift = r_i - geometry->cell_dims[0];
       int z_k_shift = z_k - geometry->cell_dims[1];
 
-      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
-      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;;
       // in first cell other alg. of ro_v calc
       if(pos_r > dr)
       {
-- 
2.43.0


From b463cee66e5147912b0b7f84db183780675307c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 24/55] fix: ZigZag weights must be in cell units

---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..fb6f940 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / (2 * dr) - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / (2 * dr) - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / (2 * dz) - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / (2 * dz) - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From 836502e33b653b378bc1287165cb131409edc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 25/55] fix: ZigZag azimuthal current mixed weights of two
 points

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index fb6f940..993a2ac 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From d515eed29a193a37f670bea1dec26fe6cec99c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 26/55] fix: random generator was shared between threads
 without synchronisation

---
 src/math/rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..65e3770 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,8 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // every thread draws from its own generator
+  thread_local std::mt19937 gen(std::random_device{}());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0


From 5d43bbc6a230a713ddaf5669f1ca5d231439533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 27/55] fix: sub-domains processed in parallel appended
 particles to the same list without synchronisation

---
 src/SMB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 7d74dcd..5688a6d 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -254,6 +254,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -264,12 +265,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+                    #pragma omp critical (particles_queue)
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+                    #pragma omp critical (particles_queue)
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -291,6 +294,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -312,6 +316,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -319,6 +324,7 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+#pragma omp atomic
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -331,6 +337,8 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
+                        // sub-domains on both sides can send particles at the same time
+#pragma omp critical (particles_jump)
                         (**pd).particles.push_back(o);
                       }
 
-- 
2.43.0


From a231ff02082faac10b521569af7040f72a247d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:54 +0000
Subject: [PATCH 28/55] fix: total amount of cells was truncated instead of
 rounded

---
 include/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..68570a6 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -22,6 +22,8 @@
 
 #include "defines.hpp"
 #include "constant.hpp"
+#include <cmath>
+
 #include "msg.hpp"
 
 struct Geometry
@@ -68,7 +70,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back(std::round(global_size[i] / cell_size[i]));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From a37bb9a7c5779bcbf98cbd1246578d1028dda2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 29/55] fix: grids that can not be divided equally among the
 domains were accepted

---
 src/cfg.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 7c5e2cf..9a9ef91 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -584,6 +584,13 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  if (geometry->domains_amount[0] == 0 || geometry->domains_amount[1] == 0
+      || geometry->cell_amount[0] % geometry->domains_amount[0] != 0
+      || geometry->cell_amount[1] % geometry->domains_amount[1] != 0)
+    {
+      LOG_S(FATAL) << "Amount of grid cells should be a multiple of the amount of domains";
+    }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From 88295d55f1ddbf8f863c0bdcd6722c4a916c4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:24 +0000
Subject: [PATCH 30/55] fix: slope of the plasma density refers to the length
 of the whole area, not to the part of one process

---
 src/SMB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 5688a6d..04502cd 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -131,7 +131,7 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
       {
         unsigned int grid_cell_macro_amount = (int)(k->macro_amount / r_domains / z_domains);
 
-        double drho_by_dz = (k->right_density - k->left_density) / geometry->size[1];
+        double drho_by_dz = (k->right_density - k->left_density) / geometry->global_size[1];
         double ld_local = k->left_density + drho_by_dz * left_z * geom_domain->cell_size[1];
         double rd_local = k->left_density + drho_by_dz * right_z * geom_domain->cell_size[1];
 
-- 
2.43.0


From a3cb72d90a9ed22eef94bf36c607ec159d4ee9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:24 +0000
Subject: [PATCH 31/55] fix: pass size of the whole area to sub-domains also
 without PML

---
 src/SMB.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 04502cd..7b977af 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -112,6 +112,7 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
       Geometry *geom_domain = new Geometry (
         { geometry->size[0] / r_domains,
           geometry->size[1] / z_domains },
+        { geometry->global_size[0], geometry->global_size[1] }, // global size
         { bot_r, left_z, top_r, right_z },
         { wall_r0,
           wall_z0,
-- 
2.43.0


From 32e1f954deea66d45b026be16f1a761710f696af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:55 +0000
Subject: [PATCH 32/55] fix: longitudinal cell of an injected particle was
 taken from its radius

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From b5e52791f157f36768a7f36d5ec3b54335250a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:55 +0000
Subject: [PATCH 33/55] fix: domains off the axis did not switch to the next
 bunch of a beam

---
 src/beamP.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..537c3ad 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -146,11 +146,12 @@ void BeamP::inject()
     }
 
     // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
+    if (time->current > bunch_finish_time)
     {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+      if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+          && geometry->cell_dims[0] == 0)
+        LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+
       ++current_bunch_number;
     }
   }
-- 
2.43.0


From 492bafa8d64b0ddcda24645a3bcba00ebbe37884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 34/55] fix: profile of the external electric field was not
 recognised

---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..620d979 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 7dc4a0aa2d28c5e2132e30d26b2f6c8169614004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 35/55] fix: external magnetic field cleared the external
 electric one

---
 src/maxwellSolver/externalFields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 620d979..321c947 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From b10b6f41c723dce3e8f8277d669b08a899f3e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 36/55] fix: external fields dropped to zero at borders between
 domains

---
 src/maxwellSolver/externalFields.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 321c947..75b5919 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -270,6 +270,18 @@ void ExternalFields::set_el_field_homogenous_z ()
       field_e[1].set(i, k, 0);
       field_e[2].set(i, k, amplitude);
     }
+
+  // overlay towards neighbour domains is filled with the same field
+  // (it is required to interpolate field near borders between domains)
+  unsigned int o_s = field_e[2].o_s;
+  unsigned int r_first = geometry->walls[0] ? r_begin + o_s : 0;
+  unsigned int z_first = geometry->walls[1] ? z_begin + o_s : 0;
+  unsigned int r_last = geometry->walls[2] ? r_end + o_s : field_e[2].x_real_size;
+  unsigned int z_last = geometry->walls[3] ? z_end + o_s : field_e[2].y_real_size;
+
+  for (unsigned int i = r_first; i < r_last; ++i)
+    for (unsigned int k = z_first; k < z_last; ++k)
+      field_e[2].set(i - o_s, k - o_s, amplitude);
 }
 
 void ExternalFields::set_magn_field_homogenous_z ()
@@ -315,6 +327,18 @@ void ExternalFields::set_magn_field_homogenous_z ()
       field_h[1].set(i, k, 0);
       field_h[2].set(i, k, amplitude);
     }
+
+  // overlay towards neighbour domains is filled with the same field
+  // (it is required to interpolate field near borders between domains)
+  unsigned int o_s = field_h[2].o_s;
+  unsigned int r_first = geometry->walls[0] ? r_begin + o_s : 0;
+  unsigned int z_first = geometry->walls[1] ? z_begin + o_s : 0;
+  unsigned int r_last = geometry->walls[2] ? r_end + o_s : field_h[2].x_real_size;
+  unsigned int z_last = geometry->walls[3] ? z_end + o_s : field_h[2].y_real_size;
+
+  for (unsigned int i = r_first; i < r_last; ++i)
+    for (unsigned int k = z_first; k < z_last; ++k)
+      field_h[2].set(i - o_s, k - o_s, amplitude);
 }
 
 void ExternalFields::operator()()
-- 
2.43.0


From a0692407aed20b26ca3b89a48b36b3a48d9f70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 37/55] fix: output frames skipped or repeated because of
 rounding of the model time

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..af9d045 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From d7235230eb29f15ea875d16469f0843257015bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 38/55] fix: rectangle probe ending at a border between domains
 wrote an empty part

---
 src/outController.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index af9d045..3ea75a9 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,10 +89,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
                && prb_size[3] <= domain_size[3]
-- 
2.43.0


From c68823acdf68ea9a3455076867b13b429e907197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 39/55] fix: probe of an unknown component wrote from an
 uninitialized pointer

---
 src/outController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/outController.cpp b/src/outController.cpp
index 3ea75a9..98b320e 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
+          {
             LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+            continue;
+          }
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From 6d062db147cf23d444f9d75e847f58af97ad4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 40/55] fix: energy and momentum maps were not joined at
 borders along z

---
 src/outController.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/outController.cpp b/src/outController.cpp
index 98b320e..ab1b639 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -484,6 +484,16 @@ void OutController::init_datasets()
               speciep->density_map.overlay_y(speciep_dst->density_map);
             else if (prb->component.compare("temperature") == 0)
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
+            else if (prb->component.compare("energy") == 0)
+              speciep->energy_map.overlay_y(speciep_dst->energy_map);
+            else if (prb->component.compare("momentum/r") == 0
+                     || prb->component.compare("momentum/phi") == 0
+                     || prb->component.compare("momentum/z") == 0)
+            {
+              speciep->momentum_map[0].overlay_y(speciep_dst->momentum_map[0]);
+              speciep->momentum_map[1].overlay_y(speciep_dst->momentum_map[1]);
+              speciep->momentum_map[2].overlay_y(speciep_dst->momentum_map[2]);
+            }
           }
 
           // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-- 
2.43.0


From 6e086172f00cf736997327640ba5d5fda83b8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 41/55] fix: TA77S collisions changed the modulus of the
 relative velocity (sign of the deflection along z)

---
 src/collisions/collisionsTA77S.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..ca515b9 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
-- 
2.43.0


From 2042273e56acff660943d30b0cb9b20ad8799b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 42/55] fix: TA77S collisions deflected both particles to the
 same side, so momentum was not conserved

---
 src/collisions/collisionsTA77S.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index ca515b9..c4ec1a9 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From eb4297580398baf71d9bfe322f3721a3b35c7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 43/55] fix: a cell without particles of one kind ended the
 collisions in the rest of its row

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index c4ec1a9..a28fac1 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 5f34cb25c8c25e959371c5a914002152dcbb0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 44/55] fix: rounding of the group sizes left electron-ion
 pairs without a collision

---
 src/collisions/collisionsP12.cpp   | 30 ++++++++++++++----------------
 src/collisions/collisionsSK98.cpp  | 30 ++++++++++++++----------------
 src/collisions/collisionsTA77S.cpp | 30 ++++++++++++++----------------
 3 files changed, 42 insertions(+), 48 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..cca992e 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -460,19 +460,18 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -483,7 +482,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -495,19 +494,18 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -518,7 +516,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..70cb619 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -370,19 +370,18 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -393,7 +392,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -405,19 +404,18 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -428,7 +426,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index a28fac1..5044fd6 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,18 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +368,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +380,18 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +402,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From 44de8969044da242668e3f9472549008e4e02de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 45/55] fix: relative velocity of particles with opposite
 velocities was the difference of their moduli

---
 src/collisions/collisionsP12.cpp  | 2 +-
 src/collisions/collisionsSK98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index cca992e..f6e17ec 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -135,7 +135,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 70cb619..615c33c 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -133,7 +133,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From 04084d7e7379e43256fc9ff9e4721d47695cd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 46/55] fix: P12 collisions took the momentum of the laboratory
 frame for that of the center of mass

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f6e17ec..8ae15b5 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -171,7 +171,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
-      * gamma_cm * p_a.length()
+      * gamma_cm * p_a_cm.length()
       / (mass_a * gamma_a + mass_b * gamma_b)
 
       * pow(
-- 
2.43.0


From 93e78cdc9742ce22a030bab14a820dd79daab7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 47/55] fix: P12 collisions compared a random number with a
 weight instead of the ratio of the weights

---
 src/collisions/collisionsP12.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 8ae15b5..f91f6f4 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -248,10 +248,12 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
 
   // find deflection probability
   double U_defl = math::random::uniform();
-  // double w_ab = min( w_a , w_b);
+  // P12: the probability is a ratio of the weights
+  bool deflect_a = U_defl * max(w_a, w_b) < w_b;
+  bool deflect_b = U_defl * max(w_a, w_b) < w_a;
 
   vector3d<double> v_a_prime, v_b_prime;
-  if (U_defl < w_a)
+  if (deflect_a)
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
@@ -263,7 +265,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     v_a_prime *= gamma_a_prime_inv;
   }
 
-  if (U_defl < w_b)
+  if (deflect_b)
   {
     vector3d<double> p_b_prime;
 
@@ -295,14 +297,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     // deflect particles only with some probability
     // according to rejection scheme
-    if (U_defl < w_a)
+    if (deflect_b)
     {
       P_VEL_R(pa) = v_b_prime[0];
       P_VEL_PHI(pa) = v_b_prime[1];
       P_VEL_Z(pa) = v_b_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (deflect_a)
     {
       P_VEL_R(pb) = v_a_prime[0];
       P_VEL_PHI(pb) = v_a_prime[1];
@@ -311,14 +313,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   }
   else
   {
-    if (U_defl < w_a)
+    if (deflect_a)
     {
       P_VEL_R(pa) = v_a_prime[0];
       P_VEL_PHI(pa) = v_a_prime[1];
       P_VEL_Z(pa) = v_a_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (deflect_b)
     {
       P_VEL_R(pb) = v_b_prime[0];
       P_VEL_PHI(pb) = v_b_prime[1];
-- 
2.43.0


From f66f3a37f5dfc7e2f8eea8f31076e3cf0bbfd378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 48/55] fix: volume of a cell in collisions was wrong for all
 but the sub-domains at the axis (macro parameter without parentheses)

---
 src/collisions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..8147b4b 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -166,7 +166,7 @@ double Collisions::geometry_cell_volume(int i)
   double dz = geometry->cell_size[1];
   double shift = geometry->cell_dims[0];
 
-  return CELL_VOLUME(i+shift, dr, dz);
+  return CELL_VOLUME((i+shift), dr, dz);
 }
 
 void Collisions::collect_weighted_params_tot_grid ()
-- 
2.43.0


From 31edd2846b8edacd0bffb0bb7d64fb59bda473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 49/55] fix: TA77S collisions accelerated particles meeting
 each other along z

---
 src/collisions/collisionsTA77S.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 5044fd6..163a26c 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -144,11 +144,11 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   {
     d_ux = u * sin_Theta * cos_Phi;
     d_uy = u * sin_Theta * sin_Phi;
-    d_uz = -u * (1 - cos_Theta);
+    d_uz = -uz * (1 - cos_Theta);
 
     d_ux2 = u * sin_Theta2 * cos_Phi2;
     d_uy2 = u * sin_Theta2 * sin_Phi2;
-    d_uz2 = -u * (1 - cos_Theta2);
+    d_uz2 = -uz * (1 - cos_Theta2);
   }
   else
   {
-- 
2.43.0


From 8b90f956f8a5585016991aeef8d2e41fb19bcdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 50/55] fix: collision of particles moving along z in the
 center-of-mass frame divided by zero

---
 src/collisions/collisionsP12.cpp  | 20 ++++++++++++++------
 src/collisions/collisionsSK98.cpp | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f91f6f4..ae05e75 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -238,12 +238,20 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[1] * cos_xi_cm;
+  if (p_cm_prp == 0)
+  {
+    p_a_prime_cm[0] = p_a_cm_abs * sin_xi_cm * cos_phi_cm;
+    p_a_prime_cm[1] = p_a_cm_abs * sin_xi_cm * sin_phi_cm;
+  }
+  else
+  {
+    p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[0] * cos_xi_cm;
+    p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[1] * cos_xi_cm;
+  }
   p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
 
   // find deflection probability
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 615c33c..b75d917 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -183,12 +183,20 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[1] * ( 1 - cos_theta_cm);
+  if (p_cm_prp == 0)
+  {
+    d_p[0] = p_cm_abs * sin_theta_cm * cos_phi;
+    d_p[1] = p_cm_abs * sin_theta_cm * sin_phi;
+  }
+  else
+  {
+    d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[0] * ( 1 - cos_theta_cm);
+    d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[1] * ( 1 - cos_theta_cm);
+  }
   d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
 
   // get p_a_prime_cm and p_b_prime_cm --- COM frame
-- 
2.43.0


From 1c9a324c198b75b55cb6af3511611f8a755f1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 51/55] fix: P12 scattering by a rare small random number gave
 the sine of an impossible angle (NaN)

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index ae05e75..a8b51bc 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -206,7 +206,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
 
   // P12: calculate scattering angle \xi^{*}
   if (s12 < 0.1)
-    cos_xi_cm = 1 + s12 * log(U);
+    cos_xi_cm = max(-1., 1 + s12 * log(U));
   else if (s12 < 3)
   {
     double A_inv = 0.00569578
-- 
2.43.0


From f91cb5f994a6f907233d78f16d9999969f4cebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 52/55] fix: mean values in the warning of P12 collisions were
 summed up from uninitialized variables

---
 src/collisions/collisionsP12.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index a8b51bc..6eecddb 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -544,11 +544,11 @@ void CollisionsP12::collide ()
     L_mean /= ncol;
     debye_mean /= ncol;
 
-    double d_el;
-    double d_ion;
-    double t_el;
-    double t_ion;
-    double g_counter;
+    double d_el = 0;
+    double d_ion = 0;
+    double t_el = 0;
+    double t_ion = 0;
+    double g_counter = 0;
     for (int i = 0; i < geometry->cell_amount[0]; ++i)
       for (int j = 0; j < geometry->cell_amount[1]; ++j)
 	{
@@ -570,7 +570,7 @@ void CollisionsP12::collide ()
     LOG_S(WARNING) << "\t\t domain number (r, z): "
                    << geometry->cell_dims[0] / geometry->cell_amount[0] << "," << geometry->cell_dims[1] / geometry->cell_amount[1];
     LOG_S(WARNING) << "\t\t L coulomb mean: " << L_mean;
-    LOG_S(WARNING) << "\t\t Debye length mean: " << L_mean;
+    LOG_S(WARNING) << "\t\t Debye length mean: " << debye_mean;
     LOG_S(WARNING) << "\t\t Density mean (el, ion): " << d_el << "," << d_ion;
     LOG_S(WARNING) << "\t\t Temperature mean (el, ion): " << t_el << "," << t_ion;
   }
-- 
2.43.0


From 32f58a9448f7c39e361c1ea8818d00e836ac210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 53/55] fix: column, row and dot probes wrote to an empty list
 of dimensions

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 9a9ef91..7eced45 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,6 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.resize(4, 0);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -270,6 +271,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.resize(4, 0);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -283,6 +285,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.resize(4, 0);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
-- 
2.43.0


From db689b1df9ed599567593741a9c3c8ad02c808b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 54/55] fix: column, row and dot probes behind the last cell
 were accepted

---
 src/cfg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 7eced45..3b47b00 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -309,13 +309,15 @@ void Cfg::init_probes ()
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    else if (p_p.dims[2] > geometry->cell_amount[0]
+             || (p_p.dims[2] == geometry->cell_amount[0] && p_p.shape >= 2))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] > geometry->cell_amount[1]
+             || (p_p.dims[3] == geometry->cell_amount[1] && (p_p.shape == 1 || p_p.shape == 3)))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-- 
2.43.0


From 1cadb4681e05a44793b8d84a5921e18a2092872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 55/55] fix: particles of species with colliding name hashes
 were mixed up

---
 src/cfg.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 3b47b00..15a4a47 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -184,6 +184,11 @@ void Cfg::init_particles()
 
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
+    for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+      if (sp->id == current_specie_id)
+        LOG_S(FATAL) << "Particles specie names ``" << specie_name << "'' and ``" << sp->name
+                     << "'' give the same ID. Rename one of them";
+
     p_s.id = current_specie_id;
     p_s.name = specie_name;
     p_s.mass = (int)o["mass"].get<double>();
@@ -356,6 +361,16 @@ void Cfg::init_beam()
 
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
+      for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+        if (sp->id == current_beam_id)
+          LOG_S(FATAL) << "Names ``" << beam_name << "'' and ``" << sp->name
+                       << "'' give the same ID. Rename one of them";
+
+      for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+        if (bm->id == current_beam_id)
+          LOG_S(FATAL) << "Names ``" << beam_name << "'' and ``" << bm->name
+                       << "'' give the same ID. Rename one of them";
+
       p_b.id = current_beam_id;
       p_b.name = beam_name;
       p_b.mass = (int)o["mass"].get<double>();
-- 
2.43.0

