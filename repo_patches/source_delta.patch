From 62e72aa216dd0761a9f40f302aaf5ecd61d12277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 01/29] fix: isotropic y-gradient at y sides averages diff_y
 across x, not along y

---
 source/fortran/2d/grad.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/grad.m4 b/source/fortran/2d/grad.m4
index 8b49dfb..f93dd04 100644
--- a/source/fortran/2d/grad.m4
+++ b/source/fortran/2d/grad.m4
@@ -194,9 +194,9 @@ c              X component of gradient at "Y" side
 
 c              Y component of gradient at "Y" side
             grad_y_yside(i,j) = p12_dyinv * (
-     &          diff_y(i,j-1) +
+     &          diff_y(i-1,j) +
      &          diff_y(i,j)*10.d0 +
-     &          diff_y(i,j+1) )
+     &          diff_y(i+1,j) )
 
          enddo
       enddo
-- 
2.43.0


From 9a0fcb65e1aac2af7af8a80a73395a0f72bb2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 02/29] fix: quatgrad_side_symm_isotropic used a stale
 component index when depth is 1

---
 source/fortran/2d/quatgrad.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatgrad.m4 b/source/fortran/2d/quatgrad.m4
index 96f1986..4cc17ca 100644
--- a/source/fortran/2d/quatgrad.m4
+++ b/source/fortran/2d/quatgrad.m4
@@ -554,8 +554,8 @@ c                 Y component of gradient at "X" side
                
             else
 
-               d1prime(1) = diff_x(i,j-1,m)
-               d2prime(1) = diff_x(i,j+1,m)
+               d1prime(1) = diff_x(i,j-1,1)
+               d2prime(1) = diff_x(i,j+1,1)
 
             endif
 
@@ -625,8 +625,8 @@ c                 X component of gradient at "Y" side
 
             else
 
-               d1prime(1) = diff_y(i-1,j,m)
-               d2prime(1) = diff_y(i+1,j,m)
+               d1prime(1) = diff_y(i-1,j,1)
+               d2prime(1) = diff_y(i+1,j,1)
 
             endif
 
-- 
2.43.0


From de9700ff5d6a9b953e489b9ccf9a5a5d55ff89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/29] fix: derivative of clamped linear interpolation is zero
 outside (0,1)

---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 3ab5965..932f0a0 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -133,7 +133,7 @@ c-----------------------------------------------------------------------
 
       else if ( type(1:1) .eq. 'l' ) then
 
-         if( phi .gt. 0.d0 .or.
+         if( phi .gt. 0.d0 .and.
      &       phi .lt. 1.d0 )then
             deriv_interp_func = 1.d0
          else
-- 
2.43.0


From 6ed1ea7882690f6cc77021c233bbcb090e58b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 04/29] fix: 's' interpolation function ignored its own clamp
 for negative phases

---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 932f0a0..5f39590 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -74,7 +74,7 @@ c Moleans 2011
       else if ( type(1:1) .eq. 's' ) then
 
          phit = max( 0.d0, phi )
-         interp_func = log ( cosh (gamma*phi) )/log(cosh(gamma))
+         interp_func = log ( cosh (gamma*phit) )/log(cosh(gamma))
 
       else if ( type(1:1) .eq. 'c' ) then
 
-- 
2.43.0


From 30c3369f6b30a5a466970c5fcb3f8faf66d0e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 05/29] fix: second derivative of clamped 'h' interpolation is
 zero outside [0,1]

---
 source/fortran/functions.f | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 5f39590..5ece98e 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -199,10 +199,12 @@ c=======================================================================
 
       else if ( type(1:1) .eq. 'h' ) then
 
-         phit = max( 0.d0, min( 1.d0, phi ) )
-
-         second_deriv_interp_func =
-     &      6.d0 * ( 1.d0 - 2.d0 * phit )
+         if( phi .ge. 0.d0 .and. phi .le. 1.d0 )then
+            second_deriv_interp_func =
+     &         6.d0 * ( 1.d0 - 2.d0 * phi )
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'w' ) then
 
-- 
2.43.0


From b221454092ebc8b0355cfeeda9bdd097c4067fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 06/29] fix: second derivative of clamped 'w' interpolation is
 zero for negative phases

---
 source/fortran/functions.f | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 5ece98e..b43d7fe 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -208,9 +208,11 @@ c=======================================================================
 
       else if ( type(1:1) .eq. 'w' ) then
 
-         phit = max( 0.d0, phi )
-
-         second_deriv_interp_func = 4.d0 - 6.d0 * phit
+         if( phi .ge. 0.d0 )then
+            second_deriv_interp_func = 4.d0 - 6.d0 * phi
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'l' ) then
 
-- 
2.43.0


From df120a306584f70e14ecd74c396106448f8381e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 07/29] fix: derivative of the harmonic mean was inverted

---
 source/fortran/functions.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index b43d7fe..286ed01 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -391,8 +391,8 @@ c-----------------------------------------------------------------------
          if ( avg_phi .lt. threshold ) then
             deriv_average_func = 0.d0
          else
-            deriv_average_func = 0.5d0 * next_phi * next_phi
-     &                                 / (avg_phi * avg_phi)
+            deriv_average_func = 0.5d0 * avg_phi * avg_phi
+     &                                 / (next_phi * next_phi)
          endif
 
       else
-- 
2.43.0


From d45c00616d799257ddbca3c6751326673ac42e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 08/29] fix: derivative of rotation matrix entry (3,2) with
 respect to q(2)

---
 source/fortran/quat.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index cd6a21c..ffe8fe8 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1367,7 +1367,7 @@ c d/dq2
 
       matrixdRdq(1,2,2)= 2.d0*q(3)
       matrixdRdq(2,2,2)=-2.d0*q(2)
-      matrixdRdq(3,2,2)= 2.d0*q(2)
+      matrixdRdq(3,2,2)= 2.d0*q(1)
 
       matrixdRdq(1,3,2)= 2.d0*q(4)
       matrixdRdq(2,3,2)=-2.d0*q(1)
-- 
2.43.0


From ef9936380e737e5f42719ca6b5380f2720152c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 09/29] fix: sign of rotation matrix entry (3,1) derivative
 with respect to q(3)

---
 source/fortran/quat.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index ffe8fe8..13d60ce 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1376,7 +1376,7 @@ c d/dq2
 c d/dq3
       matrixdRdq(1,1,3)=-2.d0*q(3)
       matrixdRdq(2,1,3)= 2.d0*q(2)
-      matrixdRdq(3,1,3)= 2.d0*q(1)
+      matrixdRdq(3,1,3)=-2.d0*q(1)
 
       matrixdRdq(1,2,3)= 2.d0*q(2)
       matrixdRdq(2,2,3)= 2.d0*q(3)
-- 
2.43.0


From 5fb990d3783a5b8def49827783822ea89b6ccc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 10/29] fix: multi-order interaction term uses the squared
 order parameter of the other phases

---
 source/fortran/2d/multiorder.m4 | 1 +
 source/fortran/3d/multiorder.m4 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/fortran/2d/multiorder.m4 b/source/fortran/2d/multiorder.m4
index 90f6959..c6ae27e 100644
--- a/source/fortran/2d/multiorder.m4
+++ b/source/fortran/2d/multiorder.m4
@@ -93,6 +93,7 @@ c  Phase energy well
      &            phi(ic0,ic1,ip)*phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
      &            - phi(ic0,ic1,ip)
                dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)
+     &              * phi(ic0,ic1,ip)
                g_prime = g_prime + 2.*phi(ic0,ic1,ip)*dgamma*dsum
 
                rhs(ic0,ic1,ip) = rhs(ic0,ic1,ip) - m * g_prime
diff --git a/source/fortran/3d/multiorder.m4 b/source/fortran/3d/multiorder.m4
index a09b30c..e57e7ce 100644
--- a/source/fortran/3d/multiorder.m4
+++ b/source/fortran/3d/multiorder.m4
@@ -108,6 +108,7 @@ c  Phase energy well
      &               phi(ic0,ic1,ic2,ip)
      &               * (phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)-1.d0)
                   dsum = phi2sum(ic0,ic1,ic2) - phi(ic0,ic1,ic2,ip)
+     &              * phi(ic0,ic1,ic2,ip)
                   g_prime = g_prime + 2.*phi(ic0,ic1,ic2,ip)*dgamma*dsum
 
                   rhs(ic0,ic1,ic2,ip) = rhs(ic0,ic1,ic2,ip) - m*g_prime
-- 
2.43.0


From 3a2639ea256018b498697bd4edef5b6c7fc66e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 11/29] fix: derivative of clamped or capped orientation
 mobility is zero

---
 source/fortran/2d/mobility.m4 | 6 ++++++
 source/fortran/3d/mobility.m4 | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/source/fortran/2d/mobility.m4 b/source/fortran/2d/mobility.m4
index 10d85d7..1a5d24c 100644
--- a/source/fortran/2d/mobility.m4
+++ b/source/fortran/2d/mobility.m4
@@ -153,6 +153,8 @@ c
                phi = max( 1.d-6, min( 1.d0, phi ) )
                
                dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+               if ( ( 1.d0 - phi ) / ( phi * phi )
+     &         .gt. alt_scale_factor ) dqfunc = 0.d0
 
             else
 
@@ -162,6 +164,10 @@ c
 
             endif
 
+c  mobility is constant where phase is clamped to [0,1]
+            if ( phase(i0,i1) .lt. 0.d0 .or.
+     &         phase(i0,i1) .gt. 1.d0 ) dqfunc = 0.d0
+
             dmobility(i0,i1) = 
      &         (scale_mobility-min_mobility) * dqfunc
 
diff --git a/source/fortran/3d/mobility.m4 b/source/fortran/3d/mobility.m4
index 2d5dd28..e069af5 100644
--- a/source/fortran/3d/mobility.m4
+++ b/source/fortran/3d/mobility.m4
@@ -158,6 +158,8 @@ c
                   phi = max( 1.d-6, min( 1.d0, phi ) )
                
                   dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+                  if ( ( 1.d0 - phi ) / ( phi * phi )
+     &            .gt. alt_scale_factor ) dqfunc = 0.d0
 
                else
 
@@ -167,6 +169,10 @@ c
 
                endif
 
+c  mobility is constant where phase is clamped to [0,1]
+               if ( phase(i0,i1,i2) .lt. 0.d0 .or.
+     &            phase(i0,i1,i2) .gt. 1.d0 ) dqfunc = 0.d0
+
                dmobility(i0,i1,i2) = 
      &            (scale_mobility-min_mobility) * dqfunc
 
-- 
2.43.0


From bcd69fe5acfa0f9529b274725adbbc122833d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 12/29] fix: phiphi interface energy density accumulates all
 pairs of phases

---
 source/fortran/2d/quatenergy.m4 | 2 +-
 source/fortran/3d/quatenergy.m4 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index e8d388b..fede8af 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -537,7 +537,7 @@ c
      &              * phi(i,j,p2)*phi(i,j,p2)
                   e = e * factor
                   if ( eval_per_cell /= 0 ) then
-                     edensity(i,j) = e
+                     edensity(i,j) = edensity(i,j) + e
                   endif
                   e = e * weight(i,j)
 
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index b9684ce..9013425 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -634,7 +634,7 @@ c
      &                 * phi(i,j,k,p2)*phi(i,j,k,p2)
                      e = e * factor
                      if ( eval_per_cell /= 0 ) then
-                        edensity(i,j,k) = e
+                        edensity(i,j,k) = edensity(i,j,k) + e
                      endif
                      e = e * weight(i,j,k)
 
-- 
2.43.0


From 1f3f13a2c52ccd504d7b743a06ef348d915c98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 13/29] fix: per-patch energy kernels accumulate the totals
 their caller sums over patches

---
 source/fortran/2d/quatenergy.m4 | 3 ---
 source/fortran/3d/quatenergy.m4 | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index fede8af..3c10afc 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -375,7 +375,6 @@ c                 factor 0.25 because of cell average and double counting
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do j = lo1, hi1
             do i = lo0, hi0
@@ -431,7 +430,6 @@ c
       integer i, j
       double precision interp_func
 
-      total_free_e = 0.d0
 
       do j = lo1, hi1
          do i = lo0, hi0
@@ -530,7 +528,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do j = lo1, hi1
                do i = lo0, hi0
                   e = phi(i,j,p1)*phi(i,j,p1)
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 9013425..dfadc91 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -331,7 +331,6 @@ c
 c Orientational energy: average over 2 cell faces in each direction
 c
       if ( misorientation_factor .gt. 0.d0 ) then
-         total_orient_e = 0.d0
          do k = lo2, hi2
             do j = lo1, hi1
                do i = lo0, hi0
@@ -426,7 +425,6 @@ c        factor 1/6 because of cell averaging
 c
 c q interface energy
 c
-         total_qint_e = 0.d0
          epsilonq2 = 0.5d0 * epsilon_q * epsilon_q
          do k = lo2, hi2
             do j = lo1, hi1
@@ -462,7 +460,6 @@ c                 factor 1/6 because of cell average
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do k = lo2, hi2
             do j = lo1, hi1
@@ -520,7 +517,6 @@ c
       integer i, j, k
       double precision interp_func
 
-      total_free_e = 0.d0
 
        do k = lo2, hi2
           do j = lo1, hi1
@@ -626,7 +622,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do k = lo2, hi2
                do j = lo1, hi1
                   do i = lo0, hi0
-- 
2.43.0


From 89d31766c752921b3a1a410132df9489ed9995ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 14/29] fix: apply gradient floor before its use on upper y
 sides in 3D orientation energy

---
 source/fortran/3d/quatenergy.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index dfadc91..768b63c 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -382,8 +382,8 @@ c
                         o2 = o2 + gqy(i,j+1,k,m,n) * gqy(i,j+1,k,m,n)
                      enddo
                   enddo
-                  e = e + sqrt(o2) * p_phi
                   o2 = o2 + floor2
+                  e = e + sqrt(o2) * p_phi
 c
                   aphi = average_func(phi(i,j,k,1),phi(i,j,k-1,1),
      &                                   avg_type)
-- 
2.43.0


From e44ee03a63c81673c3a249f5e6477c0135c62ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 15/29] fix: 3D computerhseta declares the z flux on z sides

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index ac7a4ac..a7dbf58 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -658,7 +658,7 @@ c variables in 3d side indexed
       double precision 
      &     flux0(SIDE3d0(ifirst,ilast,ngflux)),
      &     flux1(SIDE3d1(ifirst,ilast,ngflux)),
-     &     flux2(SIDE3d1(ifirst,ilast,ngflux))
+     &     flux2(SIDE3d2(ifirst,ilast,ngflux))
 c
 c***********************************************************************
 c***********************************************************************     
-- 
2.43.0


From 46c61a47a270069adc10974f731e084aa2ca9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 16/29] fix: multi-order diffusion averages the liquid fraction
 over the two cells of each face

---
 source/fortran/2d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationdiffusion.m4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index da11f8b..27a6b11 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -502,7 +502,7 @@ c
             phis = interp_func( vphi, interp_type )
 
             vphi = average_func(
-     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1-1,nphi), avg_type )
+     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1,nphi), avg_type )
             phil = interp_func( vphi, interp_type )
 
             invT = 2.0d0 / ( temp(ic0,ic1-1) + temp(ic0,ic1) )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 1e18855..b54ddb9 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1000,7 +1000,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
@@ -1027,7 +1027,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
-- 
2.43.0


From 67a6795f80ddcdb89b3c38795618a9c9149d3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 17/29] fix: grain boundary diffusion on patch boundary sides
 gets the contribution of the ghost cell

---
 source/fortran/2d/concentrationdiffusion.m4 | 61 +++++++++------
 source/fortran/3d/concentrationdiffusion.m4 | 85 +++++++++++++--------
 2 files changed, 94 insertions(+), 52 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 27a6b11..62af419 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -912,6 +912,7 @@ c
       integer ic0, ic1, ipa, ipb, ipbmin
       double precision pa, pb, invT, factorT
       double precision q0_invR
+      logical in0, in1
       double precision dAB
       double precision threshold, factor
 c
@@ -920,11 +921,19 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
-        do ic0 = ifirst0, ilast0
+c loop includes ghost cells next to patch boundary so that sides on
+c the patch boundary get contributions from both of their cells
+      do ic1 = ifirst1-1, ilast1+1
+        do ic0 = ifirst0-1, ilast0+1
+          in0 = ( ic0.ge.ifirst0-ngdiff .and.
+     &       ic0.le.ilast0+ngdiff )
+          in1 = ( ic1.ge.ifirst1-ngdiff .and.
+     &       ic1.le.ilast1+ngdiff )
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
-
+c
+c factor 0.5 for two contributions, one from each side
+          dAB = 0.d0
           do ipa = 1, nphia
             pa =  phia(ic0,ic1,ipa)
             if( pa.gt.threshold )then
@@ -937,29 +946,37 @@ c
                 pb = phib(ic0,ic1,ipb)
                 if( pb.gt.threshold )then
                   pb = pb - threshold
-
-c factor 0.5 for two contributions, one from each side
-                  dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
-
-c add contribution to four sides of each cell
-                  diffA0(ic0,ic1)   = diffA0(ic0,ic1) + dAB
-                  diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
-                  diffA1(ic0,ic1)   = diffA1(ic0,ic1) + dAB
-                  diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
-                  if( same_phase.eq.0 )then
-                    diffB0(ic0,ic1)   = diffB0(ic0,ic1)
-     &                                    + dAB
-                    diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1)   = diffB1(ic0,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1)
-     &                                    + dAB
-                  endif
+                  dAB = dAB + 0.5d0*factor*pa*pa*pb*pb*factorT
                 endif
               end do
             endif
           end do
+c
+c add contribution to four sides of each cell
+          if( in1 .and. ic0.ge.ifirst0 )then
+            diffA0(ic0,ic1) = diffA0(ic0,ic1) + dAB
+            if( same_phase.eq.0 )then
+              diffB0(ic0,ic1) = diffB0(ic0,ic1) + dAB
+            endif
+          endif
+          if( in1 .and. ic0.le.ilast0 )then
+            diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
+            if( same_phase.eq.0 )then
+              diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1) + dAB
+            endif
+          endif
+          if( in0 .and. ic1.ge.ifirst1 )then
+            diffA1(ic0,ic1) = diffA1(ic0,ic1) + dAB
+            if( same_phase.eq.0 )then
+              diffB1(ic0,ic1) = diffB1(ic0,ic1) + dAB
+            endif
+          endif
+          if( in0 .and. ic1.le.ilast1 )then
+            diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
+            if( same_phase.eq.0 )then
+              diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1) + dAB
+            endif
+          endif
         end do
       end do
 c
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index b54ddb9..f30fac0 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1082,6 +1082,7 @@ c
       integer ic0, ic1, ic2, ipa, ipb, ipbmin
       double precision pa, pb, invT, factorT
       double precision q0_invR
+      logical in0, in1, in2
       double precision dAB
       double precision threshold, factor
 c
@@ -1090,12 +1091,22 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-        do ic1 = ifirst1, ilast1
-          do ic0 = ifirst0, ilast0
+c loop includes ghost cells next to patch boundary so that sides on
+c the patch boundary get contributions from both of their cells
+      do ic2 = ifirst2-1, ilast2+1
+        do ic1 = ifirst1-1, ilast1+1
+          do ic0 = ifirst0-1, ilast0+1
+            in0 = ( ic0.ge.ifirst0-ngdiff .and.
+     &         ic0.le.ilast0+ngdiff )
+            in1 = ( ic1.ge.ifirst1-ngdiff .and.
+     &         ic1.le.ilast1+ngdiff )
+            in2 = ( ic2.ge.ifirst2-ngdiff .and.
+     &         ic2.le.ilast2+ngdiff )
             invT = 1.0d0 / temp(ic0,ic1,ic2)
             factorT = d0*exp(-q0_invR*invT)
-
+c
+c factor 0.5 for two contributions, one from each side
+            dAB = 0.d0
             do ipa = 1, nphia
               pa =  phia(ic0,ic1,ic2,ipa)
               if( pa.gt.threshold )then
@@ -1108,35 +1119,49 @@ c
                   pb = phib(ic0,ic1,ic2,ipb)
                   if( pb.gt.threshold )then
                     pb = pb - threshold
-
-c factor 0.5 for two contributions, one from each side
-                    dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
-
-c add contribution to six sides of each cell
-                    diffA0(ic0,ic1,ic2)   = diffA0(ic0,ic1,ic2) + dAB
-                    diffA0(ic0+1,ic1,ic2) = diffA0(ic0+1,ic1,ic2) + dAB
-                    diffA1(ic0,ic1,ic2)   = diffA1(ic0,ic1,ic2) + dAB
-                    diffA1(ic0,ic1+1,ic2) = diffA1(ic0,ic1+1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2)   = diffA2(ic0,ic1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2+1) = diffA2(ic0,ic1,ic2+1) + dAB
-                    if( same_phase.eq.0 )then
-                      diffB0(ic0,ic1,ic2)   = diffB0(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB0(ic0+1,ic1,ic2) = diffB0(ic0+1,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1,ic2)   = diffB1(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1+1,ic2) = diffB1(ic0,ic1+1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2)   = diffB2(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2+1) = diffB2(ic0,ic1,ic2+1)
-     &                                      + dAB
-                    endif
+                    dAB = dAB + 0.5d0*factor*pa*pa*pb*pb*factorT
                   endif
                 end do
-              endif 
+              endif
             end do
+c
+c add contribution to six sides of each cell
+            if( in1 .and. in2 .and. ic0.ge.ifirst0 )then
+              diffA0(ic0,ic1,ic2) = diffA0(ic0,ic1,ic2) + dAB
+              if( same_phase.eq.0 )then
+                diffB0(ic0,ic1,ic2) = diffB0(ic0,ic1,ic2) + dAB
+              endif
+            endif
+            if( in1 .and. in2 .and. ic0.le.ilast0 )then
+              diffA0(ic0+1,ic1,ic2) = diffA0(ic0+1,ic1,ic2) + dAB
+              if( same_phase.eq.0 )then
+                diffB0(ic0+1,ic1,ic2) = diffB0(ic0+1,ic1,ic2) + dAB
+              endif
+            endif
+            if( in0 .and. in2 .and. ic1.ge.ifirst1 )then
+              diffA1(ic0,ic1,ic2) = diffA1(ic0,ic1,ic2) + dAB
+              if( same_phase.eq.0 )then
+                diffB1(ic0,ic1,ic2) = diffB1(ic0,ic1,ic2) + dAB
+              endif
+            endif
+            if( in0 .and. in2 .and. ic1.le.ilast1 )then
+              diffA1(ic0,ic1+1,ic2) = diffA1(ic0,ic1+1,ic2) + dAB
+              if( same_phase.eq.0 )then
+                diffB1(ic0,ic1+1,ic2) = diffB1(ic0,ic1+1,ic2) + dAB
+              endif
+            endif
+            if( in0 .and. in1 .and. ic2.ge.ifirst2 )then
+              diffA2(ic0,ic1,ic2) = diffA2(ic0,ic1,ic2) + dAB
+              if( same_phase.eq.0 )then
+                diffB2(ic0,ic1,ic2) = diffB2(ic0,ic1,ic2) + dAB
+              endif
+            endif
+            if( in0 .and. in1 .and. ic2.le.ilast2 )then
+              diffA2(ic0,ic1,ic2+1) = diffA2(ic0,ic1,ic2+1) + dAB
+              if( same_phase.eq.0 )then
+                diffB2(ic0,ic1,ic2+1) = diffB2(ic0,ic1,ic2+1) + dAB
+              endif
+            endif
           end do
         end do
       end do
-- 
2.43.0


From 4310609db70f9c10eb77c9254a62cb7c7598f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 18/29] fix: Beckermann diffusion averages the partition
 coefficient over the two cells of each face

---
 source/fortran/2d/concentrationdiffusion.m4 | 6 ++++--
 source/fortran/3d/concentrationdiffusion.m4 | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 62af419..93f10d8 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -774,7 +774,8 @@ c
             
             hphi = interp_func( vphi, interp_type )
             
-            k = partition_coeff(ic0,ic1)
+            k = 0.5d0*( partition_coeff(ic0-1,ic1)
+     &                  + partition_coeff(ic0,ic1) )
 
             diff0(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -791,7 +792,8 @@ c
 
             hphi = interp_func( vphi, interp_type )
 
-            k = partition_coeff(ic0,ic1)
+            k = 0.5d0*( partition_coeff(ic0,ic1-1)
+     &                  + partition_coeff(ic0,ic1) )
 
             diff1(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index f30fac0..3b70f2b 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -777,7 +777,8 @@ c
                
                hphi = interp_func( vphi, interp_type )
                
-               k = partition_coeff(ic0,ic1,ic2)
+               k = 0.5d0*( partition_coeff(ic0-1,ic1,ic2)
+     &                     + partition_coeff(ic0,ic1,ic2) )
 
                diff0(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -796,7 +797,8 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = 0.5d0*( partition_coeff(ic0,ic1-1,ic2)
+     &                     + partition_coeff(ic0,ic1,ic2) )
 
                diff1(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -815,7 +817,8 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = 0.5d0*( partition_coeff(ic0,ic1,ic2-1)
+     &                     + partition_coeff(ic0,ic1,ic2) )
 
                diff2(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
-- 
2.43.0


From b0f0bc7dc6a715eb102d6c0f69c5d1b96e2d94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 19/29] fix: 3D z-side spinodal flux used the y flux, z-side
 diffusivity of third phase kept its last order parameter only

---
 source/fortran/3d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationrhs.m4       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 3b70f2b..964853b 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -573,7 +573,7 @@ c
 
                vphi = 0.d0
                do ip = 1, nphiB
-                  vphi = average_func(
+                  vphi = vphi + average_func(
      &               phiB(ic0,ic1,ic2-1,ip), phiB(ic0,ic1,ic2,ip),
      &               avg_type )
                enddo
diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 54acfec..b4d6812 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -381,14 +381,14 @@ c      print*,kappa
          do ic2 = ifirst2, ilast2+1
          do ic1 = ifirst1, ilast1
          do ic0 = ifirst0, ilast0
-            flux1(ic0,ic1,ic2,ic) = 0.d0
+            flux2(ic0,ic1,ic2,ic) = 0.d0
             do jc = 1, ncomp
                ijc=ic+(jc-1)*ncomp
                sideca = 0.5*(
      &            conca(ic0,ic1,ic2-1,jc)+conca(ic0,ic1,ic2,jc) )
                sidecb = 0.5*(
      &            concb(ic0,ic1,ic2-1,jc)+concb(ic0,ic1,ic2,jc) )
-               flux2(ic0,ic1,ic2,ic) = flux1(ic0,ic1,ic2,ic)
+               flux2(ic0,ic1,ic2,ic) = flux2(ic0,ic1,ic2,ic)
      &         + dzinv*(
      &           diffconc2(ic0,ic1,ic2,ijc) *
      &           ( conc(ic0,ic1,ic2,jc) - conc(ic0,ic1,ic2-1,jc) )
-- 
2.43.0


From 3f8f62740d9e39c7cb0e172740ce2c89ec0b459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 20/29] fix: 3D multi-order antitrapping current uses centred
 gradients, their own components and z neighbours

---
 source/fortran/3d/concentrationrhs.m4 | 162 +++++++++++++-------------
 1 file changed, 83 insertions(+), 79 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index b4d6812..4b53f5e 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -958,7 +958,6 @@ c
       double precision tol, tol2, dpdt
       double precision ac(2)
 c storage for values at +-1,+-1
-      double precision vmm, vmp, vpm, vpp
 
       tol = 1.e-8
       tol2 = tol*tol
@@ -972,19 +971,19 @@ c x-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0+1
 c compute gradient liquid phase first
-               dphix = dxinv*( phase(ic0,  ic1,ic2,norderp)
-     &                       - phase(ic0-1,ic1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0  ,ic1-1,ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1-1,ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
-
+               dphix = dxinv * (
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp) )
+               dphiy = dyinv*0.25d0*(
+     &            phase(ic0,ic1+1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp)
+     &          + phase(ic0-1,ic1+1,ic2,norderp)
+     &          - phase(ic0-1,ic1-1,ic2,norderp) )
+               dphiz = dzinv*0.25d0*(
+     &            phase(ic0,ic1,ic2+1,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp)
+     &          + phase(ic0-1,ic1,ic2+1,norderp)
+     &          - phase(ic0-1,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -999,22 +998,23 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipx = dphipx + dxinv*(phase(ic0,ic1,ic2,ip)
-     &                                       -phase(ic0-1,ic1,ic2,ip))
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0  ,ic1-1,ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1-1,ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipx = dphipx + dxinv * (
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                  phase(ic0,ic1+1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip)
+     &                + phase(ic0-1,ic1+1,ic2,ip)
+     &                - phase(ic0-1,ic1-1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                  phase(ic0,ic1,ic2+1,ip)
+     &                - phase(ic0,ic1,ic2-1,ip)
+     &                + phase(ic0-1,ic1,ic2+1,ip)
+     &                - phase(ic0-1,ic1,ic2-1,ip) )
                      dpdt = dpdt + 0.5d0*( dphidt(ic0-1,ic1,ic2,ip)
      &                                    +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphiz*dphiz
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1031,18 +1031,19 @@ c y-faces
          do ic1 = ifirst1, ilast1+1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiy = dyinv * ( phase(ic0,ic1,  ic2,norderp)
-     &                         - phase(ic0,ic1-1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphix = dxinv*0.25d0*(
+     &            phase(ic0+1,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp)
+     &          + phase(ic0+1,ic1-1,ic2,norderp)
+     &          - phase(ic0-1,ic1-1,ic2,norderp) )
+               dphiy = dyinv * (
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp) )
+               dphiz = dzinv*0.25d0*(
+     &            phase(ic0,ic1,ic2+1,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp)
+     &          + phase(ic0,ic1-1,ic2+1,norderp)
+     &          - phase(ic0,ic1-1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1057,22 +1058,23 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipy = dphipy + dyinv*( phase(ic0,ic1,  ic2,ip)
-     &                                       - phase(ic0,ic1-1,ic2,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                  phase(ic0+1,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip)
+     &                + phase(ic0+1,ic1-1,ic2,ip)
+     &                - phase(ic0-1,ic1-1,ic2,ip) )
+                     dphipy = dphipy + dyinv * (
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                  phase(ic0,ic1,ic2+1,ip)
+     &                - phase(ic0,ic1,ic2-1,ip)
+     &                + phase(ic0,ic1-1,ic2+1,ip)
+     &                - phase(ic0,ic1-1,ic2-1,ip) )
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1089,18 +1091,19 @@ c z-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiz = dzinv * ( phase(ic0,ic1,ic2,norderp)
-     &                         - phase(ic0,ic1,ic2-1,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1-1,ic2,  norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1-1,ic2,  norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiy = dyinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphix = dxinv*0.25d0*(
+     &            phase(ic0+1,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp)
+     &          + phase(ic0+1,ic1,ic2-1,norderp)
+     &          - phase(ic0-1,ic1,ic2-1,norderp) )
+               dphiy = dyinv*0.25d0*(
+     &            phase(ic0,ic1+1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp)
+     &          + phase(ic0,ic1+1,ic2-1,norderp)
+     &          - phase(ic0,ic1-1,ic2-1,norderp) )
+               dphiz = dzinv * (
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1115,27 +1118,28 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipz = dphipz + dzinv*( phase(ic0,ic1,ic2,ip)
-     &                                       - phase(ic0,ic1,ic2-1,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1-1,ic2,  ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1-1,ic2,  ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                  phase(ic0+1,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip)
+     &                + phase(ic0+1,ic1,ic2-1,ip)
+     &                - phase(ic0-1,ic1,ic2-1,ip) )
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                  phase(ic0,ic1+1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip)
+     &                + phase(ic0,ic1+1,ic2-1,ip)
+     &                - phase(ic0,ic1-1,ic2-1,ip) )
+                     dphipz = dphipz + dzinv * (
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0,ic1,ic2-1,ip) )
+                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
                      flux2(ic0,ic1,ic2) = flux2(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                  alpha*(dphiz/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
-- 
2.43.0


From c37d61406a16e53b426fefed07db31b77847abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 21/29] fix: symmetry-aware coarsening and refinement align
 neighbours with the reference orientation instead of stopping on rotation 0

---
 source/fortran/2d/quatcoarsen.m4   |  6 +++---
 source/fortran/2d/quatlinrefine.m4 | 14 ++++++++------
 source/fortran/3d/quatcoarsen.m4   |  5 ++---
 source/fortran/3d/quatlinrefine.m4 | 26 ++++++++++++++++----------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/source/fortran/2d/quatcoarsen.m4 b/source/fortran/2d/quatcoarsen.m4
index 4209d30..b47e2c8 100644
--- a/source/fortran/2d/quatcoarsen.m4
+++ b/source/fortran/2d/quatcoarsen.m4
@@ -50,8 +50,6 @@ c
       double precision q0(depth)
       double precision q1(depth), q1_prime(depth)
       integer iq, m
-c        
-      iq = 0
 c        
 c***********************************************************************
 c        
@@ -83,7 +81,9 @@ c
                         do m = 1, depth
                            q1(m) = qfine(if0,if1,m)
                         enddo
-                        call quatsymmrotate( q1, iq, q1_prime, depth )
+                        iq = 0
+                        call quatfindsymm( q0, q1, iq, q1_prime,
+     &                     depth )
                      endif
                   else
                      do m = 1, depth
diff --git a/source/fortran/2d/quatlinrefine.m4 b/source/fortran/2d/quatlinrefine.m4
index f8c8a81..8a12948 100644
--- a/source/fortran/2d/quatlinrefine.m4
+++ b/source/fortran/2d/quatlinrefine.m4
@@ -48,8 +48,6 @@ c
       double precision q1_prime(depth), q2_prime(depth)
       double precision q3_prime(depth), q4_prime(depth)
       integer iq,m
-c        
-      iq = 0
 c        
 c***********************************************************************
 c        
@@ -94,10 +92,14 @@ c
                q3(m) = arrayc(ic0+1,ic1,m)
                q4(m) = arrayc(ic0+1,ic1+1,m)
             enddo
-            call quatsymmrotate( q1, iq, q1_prime, depth )
-            call quatsymmrotate( q2, iq, q2_prime, depth )
-            call quatsymmrotate( q3, iq, q3_prime, depth )
-            call quatsymmrotate( q4, iq, q4_prime, depth )
+            iq = 0
+            call quatfindsymm( qref, q1, iq, q1_prime, depth )
+            iq = 0
+            call quatfindsymm( qref, q2, iq, q2_prime, depth )
+            iq = 0
+            call quatfindsymm( qref, q3, iq, q3_prime, depth )
+            iq = 0
+            call quatfindsymm( qref, q4, iq, q4_prime, depth )
             do m = 1, depth
                q1(m)=
      &            (q1_prime(m)+(q3_prime(m)-q1_prime(m))*x)*(one-y)
diff --git a/source/fortran/3d/quatcoarsen.m4 b/source/fortran/3d/quatcoarsen.m4
index 6e32c5e..346624c 100644
--- a/source/fortran/3d/quatcoarsen.m4
+++ b/source/fortran/3d/quatcoarsen.m4
@@ -53,8 +53,6 @@ c
       double precision q0(depth)
       double precision q1(depth), q1_prime(depth)
       integer iq, m
-c        
-      iq = 0
 c        
 c***********************************************************************
 c        
@@ -91,7 +89,8 @@ c
                               do m = 1, depth
                                  q1(m) = qfine(if0,if1,if2,m)
                               enddo
-                              call quatsymmrotate( q1, iq, q1_prime,
+                              iq = 0
+                              call quatfindsymm( q0, q1, iq, q1_prime,
      &                           depth )
                            endif
                         else
diff --git a/source/fortran/3d/quatlinrefine.m4 b/source/fortran/3d/quatlinrefine.m4
index 43007da..6553d87 100644
--- a/source/fortran/3d/quatlinrefine.m4
+++ b/source/fortran/3d/quatlinrefine.m4
@@ -56,8 +56,6 @@ c
      &   q5_prime(depth), q6_prime(depth),
      &   q7_prime(depth), q8_prime(depth)
       integer iq,m
-c        
-      iq = 0
 c        
 c***********************************************************************
 c        
@@ -123,14 +121,22 @@ c
                   q7(m) = arrayc(ic0+1,ic1,  ic2+1,m)
                   q8(m) = arrayc(ic0+1,ic1+1,ic2+1,m)
                enddo
-               call quatsymmrotate( q1, iq, q1_prime, depth )
-               call quatsymmrotate( q2, iq, q2_prime, depth )
-               call quatsymmrotate( q3, iq, q3_prime, depth )
-               call quatsymmrotate( q4, iq, q4_prime, depth )
-               call quatsymmrotate( q5, iq, q5_prime, depth )
-               call quatsymmrotate( q6, iq, q6_prime, depth )
-               call quatsymmrotate( q7, iq, q7_prime, depth )
-               call quatsymmrotate( q8, iq, q8_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q1, iq, q1_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q2, iq, q2_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q3, iq, q3_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q4, iq, q4_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q5, iq, q5_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q6, iq, q6_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q7, iq, q7_prime, depth )
+               iq = 0
+               call quatfindsymm( qref, q8, iq, q8_prime, depth )
                do m = 1, depth
                   q1(m)=
      &               ( (q1_prime(m)
-- 
2.43.0


From 747c5936eae63294ab80b799824ec4b1f3fc8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 22/29] fix: 3D pair forces use three components per pair and
 the cell weights

---
 source/fortran/3d/forces.m4 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/fortran/3d/forces.m4 b/source/fortran/3d/forces.m4
index 06b5b84..01396fc 100644
--- a/source/fortran/3d/forces.m4
+++ b/source/fortran/3d/forces.m4
@@ -48,7 +48,7 @@ c
       do p1 = 1, nphases
          do p2 = 1, nphases
             if( p1 .ne. p2 )then
-              offset = NDIM*nphases*(p1-1)+p2*2-1
+              offset = NDIM*nphases*(p1-1)+NDIM*(p2-1)+1
 c integral over domain
                do k = lo2, hi2
                   do j = lo1, hi1
@@ -65,9 +65,12 @@ c integral over domain
                         fx = f*diffx
                         fy = f*diffy
                         fz = f*diffz
-                        forces(offset)   = forces(offset) + fx
-                        forces(offset+1) = forces(offset+1) + fy
-                        forces(offset+2) = forces(offset+2) + fz
+                        forces(offset)   = forces(offset)
+     &                                   + fx*weight(i,j,k)
+                        forces(offset+1) = forces(offset+1)
+     &                                   + fy*weight(i,j,k)
+                        forces(offset+2) = forces(offset+2)
+     &                                   + fz*weight(i,j,k)
                      enddo
                   enddo
                enddo
-- 
2.43.0


From 0147dadea2f07d46e8494f1142344ee29aa0e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 23/29] fix: TemperatureHistory rejects out of range only, not
 the first position

A position equal to the first one in the table left the search index at 0;
decrementing it wrapped around and the lookup read out of bounds.
---
 source/TemperatureHistory.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/TemperatureHistory.cc b/source/TemperatureHistory.cc
index d6033b3..46d74d1 100644
--- a/source/TemperatureHistory.cc
+++ b/source/TemperatureHistory.cc
@@ -112,7 +112,8 @@ int TemperatureHistory::getTandGradT(const double time, const double position,
       else
          break;
    }
-   ipos--;
+   // the first interval includes its left end
+   if (ipos > 0) ipos--;
    if ((ipos + 1) >= d_positions.size()) {
       d_os << "Position " << position
            << " is beyond range defined in TemperatureHistory" << std::endl;
-- 
2.43.0


From 6eced6c08011a14845b28210b5b0c2490f62ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 24/29] fix: multiplyQuat without a result argument returned
 nothing usable

The default q=0 was passed to len() and the test for an omitted argument
compared an array with 0; use None.
---
 utils/quat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index d1c063c..1aa2280 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -75,11 +75,11 @@ def subtractQuat( q1, q2, q ) :
 
 #=======================================================================
 
-def multiplyQuat( q1, q2, q=0 ) :
+def multiplyQuat( q1, q2, q=None ) :
   assert( len( q1 ) == len( q2 ) )
   qlen = len( q1 )
   assert( qlen == 2 or qlen == 4 )
-  if ( len(q)>1 ) :
+  if ( q is not None ) :
     assert( len( q ) == qlen )
     q_tmp = duplicateQuat( q )
   else :
@@ -116,7 +116,7 @@ def multiplyQuat( q1, q2, q=0 ) :
     q_tmp[1] = q1[0] * q2[1] \
                + q1[1] * q2[0]
 
-  if ( len(q)>1 ) :
+  if ( q is not None ) :
     copyQuat( q_tmp, q )
   else :
     return q_tmp
-- 
2.43.0


From 307a67bdca64d84499d389ffc72ed6236930e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 25/29] fix: conjugateQuat without a result argument raised
 NameError

It duplicated an undefined name and compared an array with 0; use None.
---
 utils/quat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index 1aa2280..22430ae 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -130,13 +130,13 @@ def rotateQuat( q, q_rotation ) :
 
 #=======================================================================
 
-def conjugateQuat( q1, q2=0 ) :
+def conjugateQuat( q1, q2=None ) :
   qlen = len( q1 )
 
   ret_q = 0
-  if ( q2 == 0 ) :
+  if ( q2 is None ) :
     ret_q = 1
-    q2 = duplicateQuat( q )
+    q2 = duplicateQuat( q1 )
   else :
     assert( len( q2 ) == qlen )
     
-- 
2.43.0


From bb15bcf70d9df812d1fc813f22e4e70f05498369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 26/29] fix: conjugate index of the 40th cubic symmetry
 quaternion

qr4[40] = (1,-1,-1,1)/2 has conjugate (1,1,1,-1)/2 = qr4[36], not qr4[38].
---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index 22430ae..09869dd 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -322,7 +322,7 @@ iq_qr4_conj[36] = 40
 iq_qr4_conj[37] = 44
 iq_qr4_conj[38] = 45
 iq_qr4_conj[39] = 46
-iq_qr4_conj[40] = 38
+iq_qr4_conj[40] = 36
 iq_qr4_conj[41] = 35
 iq_qr4_conj[42] = 34
 iq_qr4_conj[43] = 32
-- 
2.43.0


From 4fb5ad128f70581ba64cceacaf340fd6521c78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 27/29] fix: symmetry index equal to the number of rotations

iq = +-N_ROTATIONS passed the range guard and indexed past the tables.
---
 utils/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index 09869dd..478345c 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -444,7 +444,7 @@ def quatSymm( q1, q2, iq=0 ) :
     CRIT_DIFF = 2.0 * math.sin( math.pi / 8.0 )
     N_ROTATIONS = 4
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr_conj[-iq]
 
@@ -478,7 +478,7 @@ def quatSymm1( q1, q2, iq=0 ) :
   CRIT_DIFF = math.pi / 4.0
   N_ROTATIONS = 9
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr1_conj[-iq]
 
-- 
2.43.0


From ce3ac0ebbfbf37aef6c273760c765c53d8f34e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 28/29] fix: quatSymm1 returned None when the first rotation
 tried is close

It returned min_q2_prime before it was set.
---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index 478345c..51b9571 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -484,7 +484,7 @@ def quatSymm1( q1, q2, iq=0 ) :
 
   # Test qr(:,iq) first
   diff, q2_prime = quatDiff1( q1, q2, qr1[iq] )
-  if ( diff <= CRIT_DIFF ) : return
+  if ( diff <= CRIT_DIFF ) : return q2_prime
 
   min_diff = diff
   min_iq = iq
-- 
2.43.0


From 3be469da160a77e25454aa3d33a13bfaf5a5c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 29/29] fix: computeGradSide passes ghost widths, as the
 Fortran kernel grad_side takes them

---
 source/HierarchyStencilOps.cc | 21 ++-------------------
 source/fortran/QuatFort.h     | 13 ++-----------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/source/HierarchyStencilOps.cc b/source/HierarchyStencilOps.cc
index 1101181..48776c4 100644
--- a/source/HierarchyStencilOps.cc
+++ b/source/HierarchyStencilOps.cc
@@ -52,14 +52,6 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
    assert(grad_side_data->getGhostCellWidth() ==
           hier::IntVector(tbox::Dimension(NDIM), 0));
 
-   const hier::Box& diff_gbox = diff_data->getGhostBox();
-   const hier::Index& d_lower = diff_gbox.lower();
-   const hier::Index& d_upper = diff_gbox.upper();
-
-   const hier::Box& grad_gbox = grad_side_data->getGhostBox();
-   const hier::Index& g_lower = grad_gbox.lower();
-   const hier::Index& g_upper = grad_gbox.upper();
-
    std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
        SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
                               hier::PatchGeometry>(patch->getPatchGeometry()));
@@ -78,11 +70,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
 #if (NDIM == 3)
              diff_data->getPointer(2),
 #endif
-             d_lower[0], d_upper[0], d_lower[1], d_upper[1],
-#if (NDIM == 3)
-             d_lower[2], d_upper[2],
-#endif
-             dx,
+             diff_data->getGhostCellWidth()[0], dx,
              grad_side_data->getPointer(0, 0),  // side 0, depth 0 (x component)
              grad_side_data->getPointer(0, 1),  // side 0, depth 1 (y component)
 #if (NDIM == 3)
@@ -96,12 +84,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
              grad_side_data->getPointer(2, 0), grad_side_data->getPointer(2, 1),
              grad_side_data->getPointer(2, 2),
 #endif
-             g_lower[0], g_upper[0], g_lower[1], g_upper[1]
-#if (NDIM == 3)
-             ,
-             g_lower[2], g_upper[2]
-#endif
-   );
+             grad_side_data->getGhostCellWidth()[0]);
 }
 
 void HierarchyStencilOps::computeDiffs(
diff --git a/source/fortran/QuatFort.h b/source/fortran/QuatFort.h
index 7dae89e..c501d01 100644
--- a/source/fortran/QuatFort.h
+++ b/source/fortran/QuatFort.h
@@ -269,11 +269,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*,
 #endif
-               const int&, const int&, const int&, const int&,
-#if (NDIM == 3)
-               const int&, const int&,
-#endif
-               const double*, const double*, const double*,
+               const int&, const double*, const double*, const double*,
 #if (NDIM == 3)
                const double*,
 #endif
@@ -281,12 +277,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*, const double*, const double*, const double*,
 #endif
-               const int&, const int&, const int&, const int&
-#if (NDIM == 3)
-               ,
-               const int&, const int&
-#endif
-);
+               const int&);
 
 void GRAD_SIDE_ISOTROPIC(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
-- 
2.43.0

