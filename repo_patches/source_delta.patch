From 33c745e02f2a0ca12e39da848f16e680e0daa4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 01/40] fix: field loop initial state independent of the domain
 decomposition

The energy of the last interior cells was computed with the magnetic field of
ghost cells that were not set yet, and in 2D the vertical velocity used the
size of one sub-domain instead of the global one.
---
 src/muscl/MHDInitFunctors2D.h | 11 +++++++++--
 src/muscl/MHDInitFunctors3D.h |  8 +++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..86d2acf 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -842,9 +842,14 @@ public:
 #ifdef USE_MPI
     const int i_mpi = params.myMpiPos[IX];
     const int j_mpi = params.myMpiPos[IY];
+    // sizes of the global domain
+    const int nx_glob = nx * params.mx;
+    const int ny_glob = ny * params.my;
 #else
     const int i_mpi = 0;
     const int j_mpi = 0;
+    const int nx_glob = nx;
+    const int ny_glob = ny;
 #endif
 
     const real_t xmin = params.xmin;
@@ -864,13 +869,15 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
-    if (i >= ghostWidth and i < isize - ghostWidth and j >= ghostWidth and j < jsize - ghostWidth)
+    // one more layer than the interior on the right: the energy of the last interior cells needs
+    // the magnetic field on their right faces
+    if (i >= ghostWidth and i <= isize - ghostWidth and j >= ghostWidth and j <= jsize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
       real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
 
-      real_t diag = sqrt(1.0 * (nx * nx + ny * ny + nz * nz));
+      real_t diag = sqrt(1.0 * (nx_glob * nx_glob + ny_glob * ny_glob + nz * nz));
       real_t r = sqrt(x * x + y * y);
 
       // density
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..ec163ad 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -923,10 +923,12 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
+    // one more layer than the interior on the right: the energy of the last interior cells needs
+    // the magnetic field on their right faces
     // clang-format off
-    if (i >= ghostWidth and i < isize - ghostWidth and
-        j >= ghostWidth and j < jsize - ghostWidth and
-        k >= ghostWidth and k < ksize - ghostWidth)
+    if (i >= ghostWidth and i <= isize - ghostWidth and
+        j >= ghostWidth and j <= jsize - ghostWidth and
+        k >= ghostWidth and k <= ksize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-- 
2.43.0


From 71c9303eecad12bd81973acc4a3c38e8d751c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 02/40] fix: HLLD star state when the fast speed equals the
 Alfven speed

The degeneracy guard tested estar == a^2 instead of estar == 0, so the
division by estar produced NaN (e.g. the background state of the MHD rotor
problem).
---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..398dd1c 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From 51be6b3732e6a9a68f8002423b1b116397f88aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/40] fix: no square root of negative round-off in the MHD
 fast speed

fast_mhd_speed already guards its discriminant; find_speed_fast and
find_speed_info did not and returned NaN when sound and Alfven speeds agree.
---
 src/shared/mhd_utils.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/mhd_utils.h b/src/shared/mhd_utils.h
index 78bc630..5b3af5f 100644
--- a/src/shared/mhd_utils.h
+++ b/src/shared/mhd_utils.h
@@ -104,13 +104,13 @@ find_speed_fast(const MHDState & qvar, const HydroParams & params)
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
   if (dir == IX)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   if (dir == IY)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   if (dir == IZ)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
   return cf;
 
@@ -345,12 +345,12 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
 
   d2 = 0.5 * (b2 / d + c2);
 
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   fastInfoSpeed[IX] = cf + fabs(u);
 
   // compute fastest info speed along Y
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   fastInfoSpeed[IY] = cf + fabs(v);
 
@@ -358,7 +358,7 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
   // compute fastest info speed along Z
   if (NDIM == THREE_D)
   {
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
     fastInfoSpeed[IZ] = cf + fabs(w);
   } // end THREE_D
@@ -395,7 +395,7 @@ find_speed_info(const MHDState & qState, const HydroParams & params)
   b2 = a * a + b * b + c * c;
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   // return value
   return cf + fabs(u);
-- 
2.43.0


From 0241c3cc37774e98a9886f5a35abb491a851b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 04/40] fix: disk problem start state on the disk axis

A cell centre on the axis has r = 0 and got a NaN velocity from r_soft / r.
---
 src/muscl/HydroInitFunctors2D.h | 5 +++--
 src/muscl/HydroInitFunctors3D.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..8584c79 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -994,8 +994,9 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      // (the disk axis itself has no azimuthal direction : x = y = r = 0)
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..2212a19 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -901,8 +901,9 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      // (the disk axis itself has no azimuthal direction : x = y = r = 0)
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
-- 
2.43.0


From 021cc8cd90535a2f212a719ab1aba7b52d463f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 05/40] fix: cell-centred Bz of the 2D MHD primitive variables

The primitive Bz was the average of the cell value and zero, so that pressure,
wave speeds (hence the CFL time step) and fluxes were computed with half of it.
---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..98883d6 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC); // Bz is cell-centered in 2D
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From 3fecfd1b0b448517724dc1e2a58ed9a5be5523e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 06/40] fix: write the XDMF index next to the HDF5 files it
 names

---
 src/utils/io/IO_HDF5.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_HDF5.cpp b/src/utils/io/IO_HDF5.cpp
index 8e1424c..06d5417 100644
--- a/src/utils/io/IO_HDF5.cpp
+++ b/src/utils/io/IO_HDF5.cpp
@@ -124,14 +124,15 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
    */
   std::string outputDir = configMap.getString("output", "outputDir", "./");
   std::string outputPrefix = configMap.getString("output", "outputPrefix", "output");
-  std::string xdmfFilename = outputPrefix + ".xmf";
+  // the index refers to the HDF5 files by their base name, it must live in the same directory
+  std::string xdmfFilename = outputDir + "/" + outputPrefix + ".xmf";
   if (singleStep)
   { // add iStep to file name
     std::ostringstream outNum;
     outNum.width(7);
     outNum.fill('0');
     outNum << totalNumberOfSteps;
-    xdmfFilename = outputPrefix + "_" + outNum.str() + ".xmf";
+    xdmfFilename = outputDir + "/" + outputPrefix + "_" + outNum.str() + ".xmf";
   }
   std::fstream xdmfFile;
   xdmfFile.open(xdmfFilename.c_str(), std::ios_base::out);
-- 
2.43.0


From fe29169044cd18b8f5ebd3d0d01d14aad11a812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 07/40] fix: SDM ghost cells follow limiting and positivity
 preserving

---
 src/sdm/SolverHydroSDM.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..ca06474 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1245,6 +1245,11 @@ SolverHydroSDM<dim, N>::compute_fluxes_divergence(DataArray Udata, DataArray Uda
 
   apply_positivity_preserving(Udata);
 
+  // limiting and positivity preserving modify the inner cells: ghost cells must follow, so that
+  // both sides of a periodic / MPI domain border compute the same flux
+  if (limiter_enabled or positivity_enabled)
+    make_boundaries(Udata);
+
   compute_invicid_fluxes_divergence_per_dir<IX>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IY>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IZ>(Udata, Udata_fdiv, dt);
-- 
2.43.0


From da88688c7832f5a60fad749a9d617f4c0d22b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 08/40] fix: SDM positivity preserving left alone cells of
 uniform density

---
 src/sdm/SDM_Positivity_preserving.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index f705105..7e9a256 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -162,7 +162,7 @@ public:
 
     const real_t eps1 = this->params.settings.smallr; // a small density
     const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    const real_t theta1 = (rho_min < rho_ave and ratio < 1.0) ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
@@ -528,7 +528,7 @@ public:
 
     const real_t eps1 = this->params.settings.smallr; // a small density
     const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    const real_t theta1 = (rho_min < rho_ave and ratio < 1.0) ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
@@ -1049,7 +1049,7 @@ public:
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
     const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    const real_t theta1 = (rho_min < rho_ave and ratio < 1.0) ? ratio : 1.0;
 
     // check if we need to modify density at solution points
     if (theta1 < 1.0)
@@ -1414,7 +1414,7 @@ public:
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
     const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    const real_t theta1 = (rho_min < rho_ave and ratio < 1.0) ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
-- 
2.43.0


From 53311504ef128352e244b3f4e7b85183507455e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 09/40] fix: SDM cell averages use quadrature weights exact for
 the solution polynomial

---
 src/sdm/SDM_Geometry.h         | 16 +++++++
 src/sdm/SDM_Limiter_Functors.h | 79 +++++++++-------------------------
 2 files changed, 36 insertions(+), 59 deletions(-)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..7442fcb 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -108,6 +108,10 @@ public:
   //! location of solution points in reference cell [0,1]^dim, host array
   PointsArray1DHost solution_pts_1d_host;
 
+  //! quadrature weights of the solution points in [0,1] (exact for polynomials of degree N-1),
+  //! i.e. integrals of the Lagrange polynomials
+  PointsArray1D quad_weights_1d;
+
   //! dim-dimensional array of solution points location (obtained by tensorial product)
   PointsArray solution_pts;
 
@@ -422,6 +426,18 @@ private:
     // copy to device
     Kokkos::deep_copy(solution_pts_1d, solution_pts_1d_host);
 
+    // quadrature weights (Fejer's first rule, suited to Gauss-Chebyshev points)
+    quad_weights_1d = PointsArray1D("quad_weights_1d", N);
+    PointsArray1DHost quad_weights_1d_host = Kokkos::create_mirror(quad_weights_1d);
+    for (int i = 0; i < N; i++)
+    {
+      real_t w = 1.0;
+      for (int k = 1; k <= N / 2; k++)
+        w -= 2.0 * cos(k * M_PI * (2 * i + 1) / N) / (4.0 * k * k - 1.0);
+      quad_weights_1d_host(i) = w / N;
+    }
+    Kokkos::deep_copy(quad_weights_1d, quad_weights_1d_host);
+
     // =================
     // Flux points
     // =================
diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 50fcb30..fc31377 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -82,27 +82,22 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform quadrature at the (Gauss-Chebyshev) solution points
 
       // for each DoFs
       for (int idy = 0; idy < N; ++idy)
       {
-        real_t y = this->sdm_geom.solution_pts_1d(idy);
-        real_t wy = sqrt(y - y * y);
+        real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
         for (int idx = 0; idx < N; ++idx)
         {
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
           tmp += Udata(i, j, dofMap(idx, idy, 0, ivar)) * wx * wy;
 
         } // for idx
       } // for idy
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, ID) = tmp > smallr ? tmp : smallr;
@@ -140,23 +135,20 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform quadrature at the (Gauss-Chebyshev) solution points
 
       // for each DoFs
       for (int idz = 0; idz < N; ++idz)
       {
-        real_t z = this->sdm_geom.solution_pts_1d(idz);
-        real_t wz = sqrt(z - z * z);
+        real_t wz = this->sdm_geom.quad_weights_1d(idz);
 
         for (int idy = 0; idy < N; ++idy)
         {
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
           for (int idx = 0; idx < N; ++idx)
           {
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
             tmp += Udata(i, j, k, dofMap(idx, idy, idz, ivar)) * wx * wy * wz;
 
@@ -164,9 +156,6 @@ public:
         } // for idy
       } // for idz
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, k, ID) = tmp > smallr ? tmp : smallr;
@@ -466,8 +455,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
           // read a line
           for (int idx = 0; idx < N; ++idx)
@@ -490,8 +478,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
             tmp_average += grad_val * wx * wy;
 
@@ -499,9 +486,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -527,8 +511,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
           // read a line
           for (int idy = 0; idy < N; ++idy)
@@ -551,8 +534,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
             tmp_average += grad_val * wx * wy;
 
@@ -560,9 +542,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -611,15 +590,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.quad_weights_1d(idz);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
             // read a line-vector
             for (int idx = 0; idx < N; ++idx)
@@ -639,8 +616,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t x = this->sdm_geom.solution_pts_1d(idx);
-              real_t wx = sqrt(x - x * x);
+              real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -649,9 +625,6 @@ public:
           } // end for idy
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -677,15 +650,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.quad_weights_1d(idz);
 
           for (int idx = 0; idx < N; ++idx)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
             // read a line-vector
             for (int idy = 0; idy < N; ++idy)
@@ -705,8 +676,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t y = this->sdm_geom.solution_pts_1d(idy);
-              real_t wy = sqrt(y - y * y);
+              real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -716,9 +686,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -744,15 +711,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.quad_weights_1d(idx);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.quad_weights_1d(idy);
 
             // read a line-vector
             for (int idz = 0; idz < N; ++idz)
@@ -772,8 +737,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t z = this->sdm_geom.solution_pts_1d(idz);
-              real_t wz = sqrt(z - z * z);
+              real_t wz = this->sdm_geom.quad_weights_1d(idz);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -783,9 +747,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
-- 
2.43.0


From 9edd07a8698f76477b014f71d670f8d6bbeb2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 10/40] fix: gravity predictor of the lower z face state in 3D
 hydro version 1

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From c6a4f6f432edd8e6d830e66352cb97f1c885afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 11/40] fix: a restart file that can not be loaded ends the run

---
 src/utils/io/IO_HDF5.h        | 65 ++++++++++++++++++++++++++++-------
 src/utils/io/IO_ReadWrite.cpp | 11 ++++++
 src/utils/io/IO_common.cpp    | 24 ++++++++++++-
 src/utils/io/IO_common.h      |  9 +++++
 4 files changed, 95 insertions(+), 14 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index bdaf688..299e3fa 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -10,14 +10,12 @@
 
 #  define HDF5_MESG(mesg) std::cerr << "HDF5 :" << mesg << std::endl;
 
-#  define HDF5_CHECK(val, mesg)                                                                 \
-    do                                                                                          \
-    {                                                                                           \
-      if (val < 0)                                                                              \
-      {                                                                                         \
-        std::cerr << "*** HDF5 ERROR ***\n";                                                    \
-        std::cerr << "    HDF5_CHECK (" << mesg << ") failed with status : " << status << "\n"; \
-      }                                                                                         \
+// a failed HDF5 operation ends the run
+#  define HDF5_CHECK(val, mesg)                                          \
+    do                                                                   \
+    {                                                                    \
+      if ((val) < 0)                                                     \
+        ppkMHD::io::fatal_io_error(std::string("HDF5 failure : ") + mesg); \
     } while (0)
 
 #endif // USE_HDF5
@@ -1799,6 +1797,32 @@ public:
 
   } // copy_buffer / 3D
 
+  // =======================================================
+  // =======================================================
+  /**
+   * Check that a dataset has exactly the sizes of the array to be read.
+   */
+  void
+  check_extent(hid_t dataset_id, hid_t dataspace_expected, const std::string & varName)
+  {
+
+    hsize_t dims[H5S_MAX_RANK];
+    hsize_t dims_expected[H5S_MAX_RANK];
+
+    hid_t     dataspace = H5Dget_space(dataset_id);
+    const int rank = H5Sget_simple_extent_dims(dataspace, dims, NULL);
+    const int rank_expected = H5Sget_simple_extent_dims(dataspace_expected, dims_expected, NULL);
+    H5Sclose(dataspace);
+
+    bool same = (rank == rank_expected);
+    for (int i = 0; same and i < rank; ++i)
+      same = (dims[i] == dims_expected[i]);
+
+    if (!same)
+      fatal_io_error("dataset " + varName + " does not have the sizes of the current grid");
+
+  } // check_extent
+
   // =======================================================
   // =======================================================
   /**
@@ -1832,6 +1856,8 @@ public:
 
     const std::string varName = "/" + variables_names.at(varId);
     hid_t             dataset_id = H5Dopen2(file_id, varName.c_str(), H5P_DEFAULT);
+    HDF5_CHECK(dataset_id, "can not open dataset " + varName);
+    check_extent(dataset_id, dataspace_file, varName);
 
     // cross check dataType
     hid_t       dataType = H5Dget_type(dataset_id);
@@ -1844,10 +1870,11 @@ public:
       std::cerr << "Wrong HDF5 datatype !!\n";
       std::cerr << "expected     : " << t_class_expected << std::endl;
       std::cerr << "but received : " << t_class << std::endl;
+      fatal_io_error("wrong HDF5 datatype in dataset " + varName);
     }
     herr_t status =
-      H5Dread(dataset_id, dataType, dataspace_memory, dataspace_file, H5P_DEFAULT, data);
-    HDF5_CHECK(status, "Problem reading field");
+      H5Dread(dataset_id, expectedDataType, dataspace_memory, dataspace_file, H5P_DEFAULT, data);
+    HDF5_CHECK(status, "problem reading field " + varName);
 
     H5Dclose(dataset_id);
     copy_buffer(data, isize, jsize, ksize, varId, layout);
@@ -1923,7 +1950,7 @@ public:
 
     /* Open the file */
     hid_t file_id = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-    // HDF5_CHECK((file_id >= 0), "H5Fopen "+filename);
+    HDF5_CHECK(file_id, "can not open " + filename);
 
     /* build hyperslab handles */
     /* for data in file */
@@ -2109,7 +2136,9 @@ public:
     {
       group_id = H5Gopen2(file_id, "/", H5P_DEFAULT);
       attr_id = H5Aopen(group_id, "time step", H5P_DEFAULT);
+      HDF5_CHECK(attr_id, "can not open attribute time step");
       status = H5Aread(attr_id, H5T_NATIVE_INT, &timeStep);
+      HDF5_CHECK(status, "can not read attribute time step");
       status = H5Aclose(attr_id);
       status = H5Gclose(group_id);
 
@@ -2121,7 +2150,9 @@ public:
       double readVal;
       group_id = H5Gopen2(file_id, "/", H5P_DEFAULT);
       attr_id = H5Aopen(group_id, "total time", H5P_DEFAULT);
+      HDF5_CHECK(attr_id, "can not open attribute total time");
       status = H5Aread(attr_id, H5T_NATIVE_DOUBLE, &readVal);
+      HDF5_CHECK(status, "can not read attribute total time");
       status = H5Aclose(attr_id);
       status = H5Gclose(group_id);
 
@@ -2239,9 +2270,12 @@ public:
 
     const std::string varName = "/" + this->variables_names.at(varId);
     hid_t             dataset_id = H5Dopen2(file_id, varName.c_str(), H5P_DEFAULT);
-    herr_t            status =
+    HDF5_CHECK(dataset_id, "can not open dataset " + varName);
+    this->check_extent(dataset_id, dataspace_file, varName);
+
+    herr_t status =
       H5Dread(dataset_id, dataType, dataspace_memory, dataspace_file, propList_xfer_id, data);
-    HDF5_CHECK(status, "Problem reading field");
+    HDF5_CHECK(status, "problem reading field " + varName);
 
     H5Dclose(dataset_id);
 
@@ -2629,6 +2663,7 @@ public:
 
     /* Open the file */
     hid_t file_id = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, access_plist);
+    HDF5_CHECK(file_id, "can not open " + filename);
 
     /*
      *
@@ -2715,14 +2750,18 @@ public:
     hid_t attr_id;
 
     attr_id = H5Aopen(group_id, "time step", H5P_DEFAULT);
+    HDF5_CHECK(attr_id, "can not open attribute time step");
     status = H5Aread(attr_id, H5T_NATIVE_INT, &timeStep);
+    HDF5_CHECK(status, "can not read attribute time step");
     status = H5Aclose(attr_id);
     this->iStep = timeStep;
 
     // read global time
     double timeValue;
     attr_id = H5Aopen(group_id, "total time", H5P_DEFAULT);
+    HDF5_CHECK(attr_id, "can not open attribute total time");
     status = H5Aread(attr_id, H5T_NATIVE_DOUBLE, &timeValue);
+    HDF5_CHECK(status, "can not read attribute total time");
     status = H5Aclose(attr_id);
     this->totalTime = (real_t)timeValue;
 
diff --git a/src/utils/io/IO_ReadWrite.cpp b/src/utils/io/IO_ReadWrite.cpp
index bf59d2d..2a1f97b 100644
--- a/src/utils/io/IO_ReadWrite.cpp
+++ b/src/utils/io/IO_ReadWrite.cpp
@@ -5,6 +5,7 @@
 #include <shared/HydroState.h>
 
 #include "IO_VTK.h"
+#include "IO_common.h"
 
 #ifdef USE_HDF5
 #  include "IO_HDF5.h"
@@ -235,9 +236,14 @@ IO_ReadWrite::load_data_impl(DataArray2d             Udata,
 
     iStep = reader.iStep;
     time = reader.totalTime;
+    return;
   }
 #endif // USE_HDF5
 
+  // no reader for this file: a run must not go on without its data
+  fatal_io_error("can not load data from \"" + inputFilename +
+                 "\" (only HDF5 files can be read, and HDF5 must be enabled)");
+
 } // IO_ReadWrite::load_data_impl - 2d
 
 // =======================================================
@@ -282,9 +288,14 @@ IO_ReadWrite::load_data_impl(DataArray3d             Udata,
 
     iStep = reader.iStep;
     time = reader.totalTime;
+    return;
   }
 #endif // USE_HDF5
 
+  // no reader for this file: a run must not go on without its data
+  fatal_io_error("can not load data from \"" + inputFilename +
+                 "\" (only HDF5 files can be read, and HDF5 must be enabled)");
+
 } // IO_ReadWrite::load_data_impl - 3d
 
 
diff --git a/src/utils/io/IO_common.cpp b/src/utils/io/IO_common.cpp
index da0a98b..9f879d7 100644
--- a/src/utils/io/IO_common.cpp
+++ b/src/utils/io/IO_common.cpp
@@ -1,7 +1,13 @@
-#include <ctime> // for std::time_t, std::tm, std::localtime
+#include <cstdlib> // for exit
+#include <ctime>   // for std::time_t, std::tm, std::localtime
+#include <iostream>
 #include <sstream>
 #include <iomanip> // for std::put_time (only g++ >= 5)
 
+#ifdef USE_MPI
+#  include <mpi.h>
+#endif // USE_MPI
+
 #include "IO_common.h"
 
 namespace ppkMHD
@@ -41,6 +47,22 @@ current_date()
 
 } // current_date
 
+// =======================================================
+// =======================================================
+void
+fatal_io_error(const std::string & message)
+{
+
+  std::cerr << "*** IO ERROR *** " << message << std::endl;
+
+#ifdef USE_MPI
+  MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
+#endif // USE_MPI
+
+  std::exit(EXIT_FAILURE);
+
+} // fatal_io_error
+
 } // namespace io
 
 } // namespace ppkMHD
diff --git a/src/utils/io/IO_common.h b/src/utils/io/IO_common.h
index 7fd114c..ed1d6c4 100644
--- a/src/utils/io/IO_common.h
+++ b/src/utils/io/IO_common.h
@@ -16,6 +16,15 @@ namespace io
 std::string
 current_date();
 
+// =======================================================
+// =======================================================
+/**
+ * Report a failed input / output operation, and end the run (all MPI
+ * processes) with a failure status.
+ */
+[[noreturn]] void
+fatal_io_error(const std::string & message);
+
 } // namespace io
 
 } // namespace ppkMHD
-- 
2.43.0


From d1f9a6e917a11bc002287ff3e72f2d052e7cf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 12/40] fix: an output that can not be written ends the run

---
 src/utils/io/IO_HDF5.cpp           |  4 +++
 src/utils/io/IO_HDF5.h             | 52 ++++++++++++++++--------------
 src/utils/io/IO_VTK.cpp            | 11 +++++++
 src/utils/io/IO_VTK_SDM.h          |  4 +++
 src/utils/io/IO_VTK_SDM_Flux.h     |  4 +++
 src/utils/io/IO_VTK_SDM_shared.cpp |  2 ++
 src/utils/io/IO_VTK_SDM_shared.h   |  1 +
 7 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/utils/io/IO_HDF5.cpp b/src/utils/io/IO_HDF5.cpp
index 06d5417..5b377bd 100644
--- a/src/utils/io/IO_HDF5.cpp
+++ b/src/utils/io/IO_HDF5.cpp
@@ -376,6 +376,10 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
   xdmfFile << " </Domain>" << std::endl;
   xdmfFile << "</Xdmf>" << std::endl;
 
+  xdmfFile.close();
+  if (!xdmfFile)
+    fatal_io_error("can not write file " + xdmfFilename);
+
 } // writeXdmfForHdf5Wrapper
 
 } // namespace io
diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 299e3fa..49f16e6 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -187,7 +187,8 @@ public:
     copy_buffer(data, isize, jsize, ksize, varId, layout);
     herr_t status =
       H5Dwrite(dataset_id, dataType, dataspace_memory, dataspace_file, H5P_DEFAULT, data);
-    H5Dclose(dataset_id);
+    HDF5_CHECK(status, "can not write field " + varName);
+    HDF5_CHECK(H5Dclose(dataset_id), "can not close field " + varName);
 
     return status;
 
@@ -265,6 +266,7 @@ public:
      */
     // Create a new file using default properties.
     hid_t file_id = H5Fcreate(hdf5FilenameFull.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    HDF5_CHECK(file_id, "can not create " + hdf5FilenameFull);
 
     // Create the data space for the dataset in memory and in file.
     hsize_t dims_memory[3];
@@ -431,7 +433,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "time step", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &iStep);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &iStep), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -443,7 +445,7 @@ public:
       ds_id = H5Screate(H5S_SCALAR);
       attr_id =
         H5Acreate2(file_id, "total time", H5T_NATIVE_DOUBLE, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_DOUBLE, &timeValue);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_DOUBLE, &timeValue), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -452,7 +454,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "nx", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &nx);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &nx), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -460,7 +462,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "ny", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &ny);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &ny), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -468,7 +470,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "nz", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &nz);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &nz), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -479,7 +481,7 @@ public:
       ds_id = H5Screate(H5S_SCALAR);
       attr_id =
         H5Acreate2(file_id, "ghost zone included", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -493,7 +495,7 @@ public:
     hid_t root_id = H5Gopen2(file_id, "/", H5P_DEFAULT);
     hid_t dataspace_id = H5Screate_simple(1, dimsAttr, NULL);
     attr_id = H5Acreate2(root_id, "creation date", type, dataspace_id, H5P_DEFAULT, H5P_DEFAULT);
-    status = H5Awrite(attr_id, type, &dataChar);
+    HDF5_CHECK(H5Awrite(attr_id, type, &dataChar), "can not write attribute");
     status = H5Aclose(attr_id);
     status = H5Gclose(root_id);
     status = H5Tclose(type);
@@ -503,8 +505,8 @@ public:
     H5Pclose(propList_create_id);
     H5Sclose(dataspace_memory);
     H5Sclose(dataspace_file);
-    H5Fflush(file_id, H5F_SCOPE_LOCAL);
-    H5Fclose(file_id);
+    HDF5_CHECK(H5Fflush(file_id, H5F_SCOPE_LOCAL), "can not write " + hdf5FilenameFull);
+    HDF5_CHECK(H5Fclose(file_id), "can not close " + hdf5FilenameFull);
 
     //(void) status;
 
@@ -651,7 +653,8 @@ public:
     copy_buffer(data, isize, jsize, ksize, varId, layout);
     herr_t status =
       H5Dwrite(dataset_id, dataType, dataspace_memory, dataspace_file, propList_xfer_id, data);
-    H5Dclose(dataset_id);
+    HDF5_CHECK(status, "can not write field " + varName);
+    HDF5_CHECK(H5Dclose(dataset_id), "can not close field " + varName);
 
     return status;
 
@@ -786,6 +789,7 @@ public:
 
     hid_t file_id =
       H5Fcreate(hdf5FilenameFull.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, propList_create_id);
+    HDF5_CHECK(file_id, "can not create " + hdf5FilenameFull);
     H5Pclose(propList_create_id);
 
     // Create the data space for the dataset in memory and in file.
@@ -1311,7 +1315,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "time step", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &iStep);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &iStep), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1323,7 +1327,7 @@ public:
       ds_id = H5Screate(H5S_SCALAR);
       attr_id =
         H5Acreate2(file_id, "total time", H5T_NATIVE_DOUBLE, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_DOUBLE, &timeValue);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_DOUBLE, &timeValue), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1338,7 +1342,7 @@ public:
                            ds_id,
                            H5P_DEFAULT,
                            H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1348,7 +1352,7 @@ public:
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(
         file_id, "all ghost zones included", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1359,7 +1363,7 @@ public:
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(
         file_id, "reassemble MPI pieces in file", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &tmpVal), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1368,7 +1372,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "nx", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &nx);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &nx), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1376,7 +1380,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "ny", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &ny);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &ny), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1384,7 +1388,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "nz", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &nz);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &nz), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1393,7 +1397,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "mx", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &mx);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &mx), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1401,7 +1405,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "my", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &my);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &my), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1409,7 +1413,7 @@ public:
     {
       ds_id = H5Screate(H5S_SCALAR);
       attr_id = H5Acreate2(file_id, "mz", H5T_NATIVE_INT, ds_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, H5T_NATIVE_INT, &mz);
+      HDF5_CHECK(H5Awrite(attr_id, H5T_NATIVE_INT, &mz), "can not write attribute");
       status = H5Sclose(ds_id);
       status = H5Aclose(attr_id);
     }
@@ -1425,7 +1429,7 @@ public:
       hid_t dataspace_id = H5Screate_simple(1, dimsAttr, NULL);
       attr_id =
         H5Acreate(root_id, "creation date", memtype, dataspace_id, H5P_DEFAULT, H5P_DEFAULT);
-      status = H5Awrite(attr_id, memtype, cstr);
+      HDF5_CHECK(H5Awrite(attr_id, memtype, cstr), "can not write attribute");
       status = H5Aclose(attr_id);
       status = H5Gclose(root_id);
       status = H5Tclose(memtype);
@@ -1437,7 +1441,7 @@ public:
     H5Pclose(propList_xfer_id);
     H5Sclose(dataspace_memory);
     H5Sclose(dataspace_file);
-    H5Fclose(file_id);
+    HDF5_CHECK(H5Fclose(file_id), "can not close " + hdf5FilenameFull);
 
 
     // verbose log about memory bandwidth
diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index c8b0a73..be114f1 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -1,4 +1,5 @@
 #include "IO_VTK.h"
+#include "IO_common.h"
 
 #include "utils/config/ConfigMap.h"
 
@@ -203,6 +204,8 @@ save_VTK_2D(DataArray2d                        Udata,
 
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_2D
 
@@ -404,6 +407,8 @@ save_VTK_3D(DataArray3d                        Udata,
   } // end ascii/binary heavy data write
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_3D
 
@@ -618,6 +623,8 @@ save_VTK_2D_mpi(DataArray2d                        Udata,
   } // end ascii/binary heavy data write
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // save_VTK_2D_mpi
 
@@ -849,6 +856,8 @@ save_VTK_3D_mpi(DataArray3d                        Udata,
   } // end ascii/binary heavy data write
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // save_VTK_3D_mpi
 
@@ -1002,6 +1011,8 @@ write_pvti_header(std::string                        headerFilename,
 
   // close header file
   outHeader.close();
+  if (!outHeader)
+    fatal_io_error("can not write file " + headerFilename);
 
   // end writing pvti header
 
diff --git a/src/utils/io/IO_VTK_SDM.h b/src/utils/io/IO_VTK_SDM.h
index 3deece5..3706843 100644
--- a/src/utils/io/IO_VTK_SDM.h
+++ b/src/utils/io/IO_VTK_SDM.h
@@ -1474,6 +1474,8 @@ save_VTK_SDM(DataArray2d                        Udata,
   outFile << "</VTKFile>\n";
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_SDM<N> - 2D
 
@@ -1601,6 +1603,8 @@ save_VTK_SDM(DataArray3d                        Udata,
   outFile << "</VTKFile>\n";
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_SDM<N> - 3D
 
diff --git a/src/utils/io/IO_VTK_SDM_Flux.h b/src/utils/io/IO_VTK_SDM_Flux.h
index 139bb11..af8f312 100644
--- a/src/utils/io/IO_VTK_SDM_Flux.h
+++ b/src/utils/io/IO_VTK_SDM_Flux.h
@@ -1733,6 +1733,8 @@ save_VTK_SDM_Flux(DataArray2d                        Udata,
   outFile << "</VTKFile>\n";
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_SDM_Flux<N> - 2D
 
@@ -1866,6 +1868,8 @@ save_VTK_SDM_Flux(DataArray3d                        Udata,
   outFile << "</VTKFile>\n";
 
   outFile.close();
+  if (!outFile)
+    fatal_io_error("can not write file " + filename);
 
 } // end save_VTK_SDM_Flux<N> - 3D
 
diff --git a/src/utils/io/IO_VTK_SDM_shared.cpp b/src/utils/io/IO_VTK_SDM_shared.cpp
index 3817513..5ce24e0 100644
--- a/src/utils/io/IO_VTK_SDM_shared.cpp
+++ b/src/utils/io/IO_VTK_SDM_shared.cpp
@@ -223,6 +223,8 @@ write_pvtu_header(std::string                        headerFilename,
 
   // close header file
   outHeader.close();
+  if (!outHeader)
+    fatal_io_error("can not write file " + headerFilename);
 
   // end writing pvtu header
 
diff --git a/src/utils/io/IO_VTK_SDM_shared.h b/src/utils/io/IO_VTK_SDM_shared.h
index 286d083..98a2ee5 100644
--- a/src/utils/io/IO_VTK_SDM_shared.h
+++ b/src/utils/io/IO_VTK_SDM_shared.h
@@ -6,6 +6,7 @@
 #include "shared/kokkos_shared.h"
 #include "shared/HydroParams.h"
 #include "utils/config/ConfigMap.h"
+#include "utils/io/IO_common.h"
 
 namespace ppkMHD
 {
-- 
2.43.0


From 94843af6da734e1d25604ecc9ae721eda5d2f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 13/40] fix: an HDF5 output gets its final name once it is
 complete

---
 src/utils/io/IO_HDF5.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 49f16e6..3884d0d 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -1,6 +1,7 @@
 #ifndef IO_HDF5_H_
 #define IO_HDF5_H_
 
+#include <cstdio> // for rename
 #include <iostream>
 #include <type_traits>
 
@@ -265,7 +266,10 @@ public:
      * write HDF5 file
      */
     // Create a new file using default properties.
-    hid_t file_id = H5Fcreate(hdf5FilenameFull.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    // It gets its final name once complete, so that an interrupted run never
+    // leaves a damaged file under that name.
+    const std::string hdf5FilenameTmp = hdf5FilenameFull + ".tmp";
+    hid_t file_id = H5Fcreate(hdf5FilenameTmp.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     HDF5_CHECK(file_id, "can not create " + hdf5FilenameFull);
 
     // Create the data space for the dataset in memory and in file.
@@ -508,6 +512,9 @@ public:
     HDF5_CHECK(H5Fflush(file_id, H5F_SCOPE_LOCAL), "can not write " + hdf5FilenameFull);
     HDF5_CHECK(H5Fclose(file_id), "can not close " + hdf5FilenameFull);
 
+    if (std::rename(hdf5FilenameTmp.c_str(), hdf5FilenameFull.c_str()) != 0)
+      fatal_io_error("can not rename " + hdf5FilenameTmp);
+
     //(void) status;
 
   } // save
@@ -787,8 +794,12 @@ public:
       propList_create_id, /*MPI_COMM_WORLD*/ params.communicator->getComm(), mpi_info);
     HDF5_CHECK(status, "Can not access MPI IO parameters");
 
+    // the file gets its final name once complete, so that an interrupted run
+    // never leaves a damaged file under that name.
+    const std::string hdf5FilenameTmp = hdf5FilenameFull + ".tmp";
+
     hid_t file_id =
-      H5Fcreate(hdf5FilenameFull.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, propList_create_id);
+      H5Fcreate(hdf5FilenameTmp.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, propList_create_id);
     HDF5_CHECK(file_id, "can not create " + hdf5FilenameFull);
     H5Pclose(propList_create_id);
 
@@ -1443,6 +1454,14 @@ public:
     H5Sclose(dataspace_file);
     HDF5_CHECK(H5Fclose(file_id), "can not close " + hdf5FilenameFull);
 
+    params.communicator->synchronize();
+    if (myRank == 0)
+    {
+      if (std::rename(hdf5FilenameTmp.c_str(), hdf5FilenameFull.c_str()) != 0)
+        fatal_io_error("can not rename " + hdf5FilenameTmp);
+    }
+    params.communicator->synchronize();
+
 
     // verbose log about memory bandwidth
     if (hdf5_verbose)
-- 
2.43.0


From 865dcf91ac24ce7b83e5f238e1c998d012171a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 14/40] fix: a restarted run keeps its gravity field

---
 src/muscl/SolverHydroMuscl.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 90ae1a3..6157cd3 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -577,6 +577,18 @@ SolverHydroMuscl<dim>::init_restart(DataArray Udata)
   myRank = params.myRank;
 #endif // USE_MPI
 
+  // the gravity field is not part of the restart file, it is rebuilt by the
+  // initialization of the problem (which data are then overwritten)
+  if (m_gravity_enabled)
+  {
+    if (!m_problem_name.compare("rayleigh_taylor"))
+      init_rayleigh_taylor(Udata, gravity);
+    else if (!m_problem_name.compare("rising_bubble"))
+      init_rising_bubble(Udata, gravity);
+    else if (!m_problem_name.compare("disk"))
+      init_disk(Udata, gravity);
+  }
+
   // load data
   auto reader = std::make_shared<io::IO_ReadWrite>(params, configMap, m_variables_names);
 
-- 
2.43.0


From c1aed6d622ef13e3a0b15bb47ead2d1b482ebea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 15/40] fix: a parameter file that can not be read ends the
 run, lines may have any length

---
 src/utils/config/ConfigMap.cpp | 23 +++++++--
 src/utils/config/inih/ini.cpp  | 90 +++++-----------------------------
 2 files changed, 32 insertions(+), 81 deletions(-)

diff --git a/src/utils/config/ConfigMap.cpp b/src/utils/config/ConfigMap.cpp
index 418c85b..8457815 100644
--- a/src/utils/config/ConfigMap.cpp
+++ b/src/utils/config/ConfigMap.cpp
@@ -9,6 +9,7 @@
  */
 #include "ConfigMap.h"
 #include <cstdlib> // for strtof
+#include <iostream>
 #include <sstream>
 #include <fstream>
 
@@ -117,12 +118,21 @@ broadcast_parameters(std::string filename)
     std::ifstream filein(filename.c_str(), std::ifstream::ate);
     int           file_size = filein.tellg();
 
-    filein.seekg(0); // rewind
+    if (file_size >= 0)
+    {
+      filein.seekg(0); // rewind
 
-    buffer_size = file_size;
-    buffer = new char[buffer_size];
+      buffer_size = file_size;
+      buffer = new char[buffer_size];
+
+      filein.read(buffer, buffer_size);
+    }
 
-    filein.read(buffer, buffer_size);
+    if (!filein)
+    {
+      std::cerr << "Can not read parameter file " << filename << std::endl;
+      MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
+    }
   }
 
   // broadcast buffer size (collective)
@@ -148,6 +158,11 @@ broadcast_parameters(std::string filename)
 
 #else
   ConfigMap configMap(filename);
+  if (configMap.ParseError() < 0)
+  {
+    std::cerr << "Can not read parameter file " << filename << std::endl;
+    std::exit(EXIT_FAILURE);
+  }
   return configMap;
 #endif
 
diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 9f44c48..e52d619 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -18,7 +18,6 @@ http://code.google.com/p/inih/
 
 #include "ini.h"
 
-#define MAX_LINE 200
 #define MAX_SECTION 50
 #define MAX_NAME 50
 
@@ -77,89 +76,26 @@ ini_parse(const char * filename,
           int (*handler)(void *, const char *, const char *, const char *),
           void * user)
 {
-  /* Uses a fair bit of stack (use heap instead if you need to) */
-  char line[MAX_LINE];
-  char section[MAX_SECTION] = "";
-  char prev_name[MAX_NAME] = "";
 
-  FILE * file;
-  char * start;
-  char * end;
-  char * name;
-  char * value;
-  int    lineno = 0;
-  int    error = 0;
-
-  file = fopen(filename, "r");
+  FILE * file = fopen(filename, "r");
   if (!file)
     return -1;
 
-  /* Scan through file line by line */
-  while (fgets(line, sizeof(line), file) != NULL)
-  {
-    lineno++;
-    start = lskip(rstrip(line));
-
-#if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
-    {
-      /* Non-black line with leading whitespace, treat as continuation
-         of previous name's value (as per Python ConfigParser). */
-      if (!handler(user, section, prev_name, start) && !error)
-        error = lineno;
-    }
-    else
-#endif
-      if (*start == ';' || *start == '#')
-    {
-      /* Per Python ConfigParser, allow '#' comments at start of line */
-    }
-    else if (*start == '[')
-    {
-      /* A "[section]" line */
-      end = find_char_or_comment(start + 1, ']');
-      if (*end == ']')
-      {
-        *end = '\0';
-        strncpy0(section, start + 1, sizeof(section));
-        *prev_name = '\0';
-      }
-      else if (!error)
-      {
-        /* No ']' found on section line */
-        error = lineno;
-      }
-    }
-    else if (*start && *start != ';')
-    {
-      /* Not a comment, must be a name=value pair */
-      end = find_char_or_comment(start, '=');
-      if (*end == '=')
-      {
-        *end = '\0';
-        name = rstrip(start);
-        value = lskip(end + 1);
-        end = find_char_or_comment(value, '\0');
-        if (*end == ';')
-          *end = '\0';
-        rstrip(value);
-
-        /* Valid name=value pair found, call handler */
-        strncpy0(prev_name, name, sizeof(prev_name));
-        if (!handler(user, section, name, value) && !error)
-          error = lineno;
-      }
-      else if (!error)
-      {
-        /* No '=' found on name=value line */
-        error = lineno;
-      }
-    }
-  }
+  /* read the whole file, lines may have any length */
+  std::string content;
+  char        chunk[4096];
+  size_t      nread;
+  while ((nread = fread(chunk, 1, sizeof(chunk), file)) > 0)
+    content.append(chunk, nread);
 
+  const bool read_error = ferror(file) != 0;
   fclose(file);
 
-  return error;
+  if (read_error)
+    return -1;
+
+  char * buffer = &content[0];
+  return ini_parse_buffer(buffer, static_cast<int>(content.size()), handler, user);
 
 } // ini_parse
 
-- 
2.43.0


From d77b787f40022b1dcc35fc8f47d50e40875bab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 16/40] fix: Riemann solver choices that do not exist for a
 solver no longer leave the flux unset

---
 src/shared/HydroParams.cpp  | 15 +++++++++++++++
 src/shared/RiemannSolvers.h |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 2a744e6..4c27033 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -200,6 +200,21 @@ HydroParams::setup(ConfigMap & configMap)
     riemannSolverType = RIEMANN_APPROX;
   }
 
+  // some Riemann solvers only exist for hydro, others only for MHD
+  if (mhdEnabled and
+      (riemannSolverType == RIEMANN_APPROX or riemannSolverType == RIEMANN_HLLC))
+  {
+    std::cout << "Riemann Solver not available for MHD\n";
+    std::cout << "Use hlld\n";
+    riemannSolverType = RIEMANN_HLLD;
+  }
+  else if (!mhdEnabled and riemannSolverType == RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver not available for hydro\n";
+    std::cout << "Use the default one : approx\n";
+    riemannSolverType = RIEMANN_APPROX;
+  }
+
   implementationVersion = configMap.getFloat("OTHER", "implementationVersion", 0);
   if (implementationVersion != 0 and implementationVersion != 1 and implementationVersion != 2)
   {
diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From a3fa0eeda76138adbe9764b79ede08de52385a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 17/40] fix: ghost cells in an output belong to the saved time
 step

---
 src/muscl/SolverHydroMuscl.h | 5 +++++
 src/muscl/SolverMHDMuscl.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 6157cd3..e4c979b 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -821,6 +821,11 @@ void
 SolverHydroMuscl<dim>::save_solution_impl()
 {
 
+  // the ghost cells still hold the previous time step, update them when they are part of the output
+  if (configMap.getBool("output", "ghostIncluded", false) or
+      configMap.getBool("output", "allghostIncluded", false))
+    make_boundaries(m_iteration % 2 == 0 ? U : U2);
+
   timers[TIMER_IO]->start();
   if (m_iteration % 2 == 0)
     save_data(U, Uhost, m_times_saved, m_t);
diff --git a/src/muscl/SolverMHDMuscl.h b/src/muscl/SolverMHDMuscl.h
index ecaaf08..fa7eede 100644
--- a/src/muscl/SolverMHDMuscl.h
+++ b/src/muscl/SolverMHDMuscl.h
@@ -896,6 +896,11 @@ void
 SolverMHDMuscl<dim>::save_solution_impl()
 {
 
+  // the ghost cells still hold the previous time step, update them when they are part of the output
+  if (configMap.getBool("output", "ghostIncluded", false) or
+      configMap.getBool("output", "allghostIncluded", false))
+    make_boundaries(m_iteration % 2 == 0 ? U : U2);
+
   timers[TIMER_IO]->start();
   if (m_iteration % 2 == 0)
     save_data(U, Uhost, m_times_saved, m_t);
-- 
2.43.0


From 0f78da6428e1555748bc9d16f3b652d35c6325f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 18/40] fix: creation date of an HDF5 output holds no stale
 memory

---
 src/utils/io/IO_HDF5.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 3884d0d..4d57cb6 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -744,7 +744,7 @@ public:
 
     // broadcast stringDate to all other MPI task
     if (myRank != 0)
-      stringDate.reserve(stringDateSize);
+      stringDate.resize(stringDateSize);
     char * cstr = const_cast<char *>(stringDate.c_str());
     params.communicator->bcast(cstr, stringDateSize, MpiComm::CHAR, 0);
 
-- 
2.43.0


From 47e445546be07407828946dc3aea56afee003f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 19/40] fix: extents of 2D pieces in the parallel VTK header
 are those of the piece files

---
 src/utils/io/IO_VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index be114f1..7e4e3d8 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -968,7 +968,7 @@ write_pvti_header(std::string                        headerFilename,
         outHeader << 0 << " " << ny << " ";
       else
         outHeader << coords[1] * ny << " " << coords[1] * ny + ny << " ";
-      outHeader << 0 << " " << 1 << "\" Source=\"";
+      outHeader << 0 << " " << 0 << "\" Source=\"";
       outHeader << pieceFilename << "\"/>" << std::endl;
     }
   }
-- 
2.43.0


From 57ab5bed7b4009bc158715cc4ef6edc0b64b0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 20/40] fix: an up-scaled restart that would read undefined
 values ends the run

---
 src/utils/io/IO_HDF5.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 4d57cb6..5626438 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -1820,6 +1820,25 @@ public:
 
   } // copy_buffer / 3D
 
+  // =======================================================
+  // =======================================================
+  /**
+   * Check that the current grid can be filled from a file twice smaller.
+   */
+  void
+  check_upscale(bool ghostInFile)
+  {
+
+    if (params.nx % 2 != 0 or params.ny % 2 != 0 or
+        (params.dimType == THREE_D and params.nz % 2 != 0))
+      fatal_io_error("an up-scaled restart needs even sizes");
+
+    // the outer face of the last cell is interpolated with the first ghost cell
+    if (params.mhdEnabled and !ghostInFile)
+      fatal_io_error("an up-scaled MHD restart needs a file which includes ghost cells");
+
+  } // check_upscale
+
   // =======================================================
   // =======================================================
   /**
@@ -1936,6 +1955,8 @@ public:
     // in this case we expected that ghost cells are present in input file
     bool halfResolution = configMap.getBool("run", "restart_upscale", false);
 
+    if (halfResolution)
+      check_upscale(ghostIncluded);
 
     herr_t status;
 
@@ -2348,6 +2369,9 @@ public:
     // in this case we expected that ghost cells are present in input file
     bool halfResolution = this->configMap.getBool("run", "restart_upscale", false);
 
+    if (halfResolution)
+      this->check_upscale(ghostIncluded or allghostIncluded);
+
     // verbose log ?
     bool hdf5_verbose = this->configMap.getBool("run", "hdf5_verbose", false);
 
-- 
2.43.0


From 19b3173cf544a22310d7e3e42452201beb7ee9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 21/40] fix: a restarted run that is late on its outputs does
 not save its first state twice

---
 src/shared/SolverBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/SolverBase.cpp b/src/shared/SolverBase.cpp
index c54d9d9..912596f 100644
--- a/src/shared/SolverBase.cpp
+++ b/src/shared/SolverBase.cpp
@@ -274,7 +274,8 @@ SolverBase::should_save_solution()
     return 1;
   }
 
-  if ((m_t - (m_times_saved - 1) * interval) > interval)
+  // the state a run starts from is already saved, even if it is late (restart)
+  if (m_iteration > 0 and (m_t - (m_times_saved - 1) * interval) > interval)
   {
     return 1;
   }
-- 
2.43.0


From 7c6b6880477069b4dd3b8aaa73f0c153789125a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 22/40] fix: disabled error polling reports no failure

---
 src/utils/mpiUtils/ErrorPolling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mpiUtils/ErrorPolling.cpp b/src/utils/mpiUtils/ErrorPolling.cpp
index a789928..d3b428e 100644
--- a/src/utils/mpiUtils/ErrorPolling.cpp
+++ b/src/utils/mpiUtils/ErrorPolling.cpp
@@ -49,9 +49,9 @@ ErrorPolling::reportFailure(const MpiComm & comm)
 bool
 ErrorPolling::pollForFailures(const MpiComm & comm)
 {
-  /* bypass if inactive */
+  /* bypass if inactive: nothing is exchanged, so no failure is known */
   if (!isActive())
-    return true;
+    return false;
 
   int myBad = 0;
   int anyBad = 0;
-- 
2.43.0


From dca8b7b0389c3d3bd770862f54b820d9252b5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 23/40] fix: SDM wedge and jet problems use their own border
 conditions in MPI runs too

---
 src/sdm/SolverHydroSDM.h | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index ca06474..608885a 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -321,6 +321,11 @@ public:
   void
   make_boundary_sdm_jet(DataArray Udata, JetParams jparams);
 
+  //! boundary condition of one face, taking care of the special test cases
+  template <FaceIdType faceId>
+  void
+  make_boundary_sdm_face(DataArray Udata, bool mhd_enabled);
+
   //! main boundaries routine (this is were serial / mpi switch happens)
   void
   make_boundaries(DataArray Udata);
@@ -1616,6 +1621,30 @@ SolverHydroSDM<dim, N>::make_boundary_sdm_jet(DataArray Udata, JetParams jparams
 
 } // SolverHydroSDM<dim,N>::make_boundary_sdm_jet
 
+// =======================================================
+// =======================================================
+template <int dim, int N>
+template <FaceIdType faceId>
+void
+SolverHydroSDM<dim, N>::make_boundary_sdm_face(DataArray Udata, bool mhd_enabled)
+{
+
+  // wedge and jet have their own border conditions
+  if (dim == 2 and !m_problem_name.compare("wedge"))
+  {
+    make_boundary_sdm_wedge<faceId>(Udata, WedgeParams(configMap, m_t));
+  }
+  else if (!m_problem_name.compare("jet"))
+  {
+    make_boundary_sdm_jet<faceId>(Udata, JetParams(configMap));
+  }
+  else
+  {
+    make_boundary_sdm<faceId>(Udata, mhd_enabled);
+  }
+
+} // SolverHydroSDM<dim,N>::make_boundary_sdm_face
+
 // =======================================================
 // =======================================================
 // //////////////////////////////////////////////////
@@ -1731,7 +1760,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_XMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
@@ -1740,7 +1769,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1757,7 +1786,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_YMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
@@ -1766,7 +1795,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1786,7 +1815,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_XMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
@@ -1795,7 +1824,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1812,7 +1841,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_YMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
@@ -1821,7 +1850,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1838,7 +1867,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_ZMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_ZMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Z_MAX] == BC_COPY || params.neighborsBC[Z_MAX] == BC_PERIODIC)
@@ -1847,7 +1876,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_ZMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_face<FACE_ZMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
-- 
2.43.0


From 6a2b03c932bd746f8602eba0e544c3fa17244e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 24/40] fix: MHD 3D version 2 added the slope of By twice to
 the edge states

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From 8530ad925ea3ee3b556e6dc1bc8a59699d12f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 25/40] fix: MHD 3D version 2 took the wrong neighbour for
 magnetic slopes along z

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From 90fb9c5cf2a33bff7d0bd8292dee5428e5dd7885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 26/40] fix: implode start state stored velocity as momentum

---
 src/muscl/HydroInitFunctors2D.h   |  8 ++++----
 src/muscl/HydroInitFunctors3D.h   | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h     |  8 ++++----
 src/muscl/MHDInitFunctors3D.h     | 12 ++++++------
 src/sdm/init/InitImplodeFunctor.h | 20 ++++++++++----------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 8584c79..16c932b 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 2212a19..5acfcd6 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 86d2acf..dc046a0 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index ec163ad..5308a9e 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
diff --git a/src/sdm/init/InitImplodeFunctor.h b/src/sdm/init/InitImplodeFunctor.h
index 371d01f..245c07b 100644
--- a/src/sdm/init/InitImplodeFunctor.h
+++ b/src/sdm/init/InitImplodeFunctor.h
@@ -125,16 +125,16 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_out;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_out;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_out;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_out * u_out;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_out * v_out;
         }
         else
         {
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_in;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_in;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_in;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_in * u_in;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_in * v_in;
         }
 
       } // end for idx
@@ -231,18 +231,18 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_out / (gamma0 - 1.0) +
               0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_out * u_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_out * v_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_out * w_out;
           }
           else
           {
             Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho_in;
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_in * u_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_in * v_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_in * w_in;
           }
 
         } // end for idx
-- 
2.43.0


From bec27673a2f24b4f4723da20014c3710299e33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 27/40] fix: EulerEquations::compute_speed_of_sound returned
 the square of the speed

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From 8edbb16c41bb7c692988d6de252e71d94cecb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 28/40] fix: SDM limiter computed the speed of sound from
 conserved variables

---
 src/sdm/SDM_Limiter_Functors.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index fc31377..62d8cf6 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -893,7 +893,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
@@ -1030,7 +1032,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
-- 
2.43.0


From 37a43a8ee698787f729edaa87d6236c4ae95c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 29/40] fix: four-quadrant configuration 18 fell through to
 configuration 0

---
 src/shared/problems/initRiemannConfig2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index f780abc..1711be8 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -485,6 +485,7 @@ getRiemannConfig2d(int            numConfig,
       U3[IV] = -0.4259;
       U3[IP] = 0.4;
 
+      break;
     default:
       // Config 1
       U0[ID] = 1.0;
-- 
2.43.0


From c18cb695be02fccc9866bf6a290f68f2f831bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 30/40] fix: misprints in four-quadrant configurations 5 and 9
 (Lax-Liu 6 and 10)

---
 src/shared/problems/initRiemannConfig2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index 1711be8..ba5d5c7 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -174,7 +174,7 @@ getRiemannConfig2d(int            numConfig,
       U1[ID] = 2.0;
       U1[IU] = 0.75;
       U1[IV] = 0.5;
-      U1[IP] = 0.5;
+      U1[IP] = 1.0;
 
       U2[ID] = 1.0;
       U2[IU] = -0.75;
@@ -275,7 +275,7 @@ getRiemannConfig2d(int            numConfig,
 
       U3[ID] = 0.4562;
       U3[IU] = 0.0;
-      U3[IV] = -0.4259;
+      U3[IV] = -0.4297;
       U3[IP] = 0.3333;
 
       break;
-- 
2.43.0


From 9ed97ce8519365cd79d6eaa6fb6f353859a243a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 31/40] fix: SDM four-quadrant start state was shifted by half
 a cell

---
 src/sdm/init/InitFourQuadrantFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 0c60cf9..24339c9 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -107,8 +107,8 @@ public:
       {
 
         // lower left corner
-        real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-        real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+        real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+        real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
         // Dof location in real space
         x += this->sdm_geom.solution_pts_1d(idx) * dx;
-- 
2.43.0


From 93b83b528dc04e738ce5adc980e3c5399256fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 32/40] fix: 3D Gresho vortex had a velocity along its axis

---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 5acfcd6..7c98754 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From 4557c7b8e0101dfc72fe317cbfc790f36568dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 33/40] fix: energy of the disk where pressure supports it
 without rotation

---
 src/muscl/HydroInitFunctors2D.h | 2 +-
 src/muscl/HydroInitFunctors3D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 16c932b..b55d024 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1046,7 +1046,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * fmax(omega2, 0.0) * (r2 + eps * eps);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 7c98754..5998ffe 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -954,7 +954,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * fmax(omega2, 0.0) * (r2 + eps * eps);
     }
 
   } // end operator ()
-- 
2.43.0


From 8348f6ed0ea1bba8a2125f252de7eab2e53b36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 34/40] fix: 3D MHD rotor set its momentum to the velocity

---
 src/muscl/MHDInitFunctors3D.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5308a9e..b1ccbfc 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -696,14 +696,14 @@ public:
     if (r <= r0)
     {
       Udata(i, j, k, ID) = 10.0;
-      Udata(i, j, k, IU) = -u0 * (y - yCenter) / r0;
-      Udata(i, j, k, IV) = u0 * (x - xCenter) / r0;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
       Udata(i, j, k, ID) = 1 + 9 * f_r;
-      Udata(i, j, k, IU) = -f_r * u0 * (y - yCenter) / r;
-      Udata(i, j, k, IV) = f_r * u0 * (x - xCenter) / r;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * f_r * u0 * (y - yCenter) / r;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * f_r * u0 * (x - xCenter) / r;
     }
     else
     {
-- 
2.43.0


From 072bde294707ab4b1f1a4baa5b69086023e6bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 35/40] fix: energy of the 2D MHD field loop left out the third
 velocity component

---
 src/muscl/MHDInitFunctors2D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index dc046a0..73c1cac 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -934,7 +934,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
-- 
2.43.0


From e5cfa0c2eb4607f03b35f68f036f43f198acad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 36/40] fix: SDM isentropic vortex at the end time was placed
 outside boxes not starting at 0

---
 src/sdm/init/InitIsentropicVortexFunctor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/init/InitIsentropicVortexFunctor.h b/src/sdm/init/InitIsentropicVortexFunctor.h
index efde905..5d76cde 100644
--- a/src/sdm/init/InitIsentropicVortexFunctor.h
+++ b/src/sdm/init/InitIsentropicVortexFunctor.h
@@ -106,8 +106,8 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      vortex_x -= (xmax - xmin) * floor((vortex_x - xmin) / (xmax - xmin));
+      vortex_y -= (ymax - ymin) * floor((vortex_y - ymin) / (ymax - ymin));
     }
 
     int i, j;
@@ -212,8 +212,8 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      vortex_x -= (xmax - xmin) * floor((vortex_x - xmin) / (xmax - xmin));
+      vortex_y -= (ymax - ymin) * floor((vortex_y - ymin) / (ymax - ymin));
     }
 
     // local cell index
-- 
2.43.0


From c7f4effecee374be3994b6fc7192d7c9c0730e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:19 +0000
Subject: [PATCH 37/40] fix: hydro predictor used the mesh width of the face
 direction for all derivatives

---
 src/muscl/HydroBaseFunctor2D.h | 40 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 72 +++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..968bd9c 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -245,48 +245,48 @@ public:
     real_t dvy = dqY[IV];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..fb1aa29 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -314,75 +314,77 @@ public:
     real_t dwz = dqZ[IW];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    real_t sr0 =
+      (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy + (-w * drz - dwz * r) * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy +
+                 (-w * dpz - dwz * gamma0 * p) * dtdz;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy + (-w * duz) * dtdz;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy + (-w * dvz) * dtdz;
+    real_t sw0 = (-u * dwx) * dtdx + (-v * dwy) * dtdy + (-w * dwz - dpz / r) * dtdz;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0


From c8d5e94ec76dad931aa67a3a332649282fb9a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:10 +0000
Subject: [PATCH 38/40] fix: the MHD solvers know the problem name FieldLoop
 the shipped parameter files use

---
 src/muscl/SolverMHDMuscl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/muscl/SolverMHDMuscl.h b/src/muscl/SolverMHDMuscl.h
index fa7eede..b44972e 100644
--- a/src/muscl/SolverMHDMuscl.h
+++ b/src/muscl/SolverMHDMuscl.h
@@ -688,7 +688,8 @@ SolverMHDMuscl<dim>::init(DataArray Udata)
 
       init_rotor(U);
     }
-    else if (!m_problem_name.compare("field_loop") || !m_problem_name.compare("field loop"))
+    else if (!m_problem_name.compare("field_loop") || !m_problem_name.compare("field loop") ||
+             !m_problem_name.compare("FieldLoop"))
     {
 
       init_field_loop(U);
-- 
2.43.0


From 687ef51f2cf2181aa7b5a21ec6b116fe84e20e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:28 +0000
Subject: [PATCH 39/40] fix: an indented comment of a parameter file replaced
 the value above it

---
 src/utils/config/inih/ini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index e52d619..b52e732 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -138,7 +138,7 @@ ini_parse_buffer(char *& buffer,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    if (*prev_name && *start && start > line && *start != ';' && *start != '#')
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
-- 
2.43.0


From d0c2b0388c5a8f7a06889d1157dd4045c8a079c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:16 +0000
Subject: [PATCH 40/40] fix: every parallel HDF5 output left one dataspace open

---
 src/utils/io/IO_HDF5.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 5626438..41b3945 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -1321,7 +1321,7 @@ public:
     }
 
     // write time step number
-    hid_t ds_id = H5Screate(H5S_SCALAR);
+    hid_t ds_id;
     hid_t attr_id;
     {
       ds_id = H5Screate(H5S_SCALAR);
-- 
2.43.0

