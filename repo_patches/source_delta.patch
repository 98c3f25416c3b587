From fe4bfe4e639a669a67adcc33e3bfa2faca350e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 01/85] fix: average y differences along x in 2d
 grad_side_isotropic

The transverse average of the isotropic stencil was taken along the
direction of the difference itself on y sides.
---
 source/fortran/2d/grad.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/grad.m4 b/source/fortran/2d/grad.m4
index 8b49dfb..f93dd04 100644
--- a/source/fortran/2d/grad.m4
+++ b/source/fortran/2d/grad.m4
@@ -194,9 +194,9 @@ c              X component of gradient at "Y" side
 
 c              Y component of gradient at "Y" side
             grad_y_yside(i,j) = p12_dyinv * (
-     &          diff_y(i,j-1) +
+     &          diff_y(i-1,j) +
      &          diff_y(i,j)*10.d0 +
-     &          diff_y(i,j+1) )
+     &          diff_y(i+1,j) )
 
          enddo
       enddo
-- 
2.43.0


From 30c1d09c6f87c721f5cbd38af1c5c170316a05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 02/85] fix: symmetry aware quaternion refine and coarsen
 stopped the run

quatlinrefine and quatcoarsen called quatsymmrotate with rotation number 0,
which prints an error and stops. Use the symmetric equivalent closest to the
reference quaternion that is loaded just above.
---
 source/fortran/2d/quatcoarsen.m4   |  3 ++-
 source/fortran/2d/quatlinrefine.m4 |  8 ++++----
 source/fortran/3d/quatcoarsen.m4   |  2 +-
 source/fortran/3d/quatlinrefine.m4 | 16 ++++++++--------
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/source/fortran/2d/quatcoarsen.m4 b/source/fortran/2d/quatcoarsen.m4
index 4209d30..068380f 100644
--- a/source/fortran/2d/quatcoarsen.m4
+++ b/source/fortran/2d/quatcoarsen.m4
@@ -83,7 +83,8 @@ c
                         do m = 1, depth
                            q1(m) = qfine(if0,if1,m)
                         enddo
-                        call quatsymmrotate( q1, iq, q1_prime, depth )
+                        call quatfindsymm( q0, q1, iq, q1_prime,
+     &                                     depth )
                      endif
                   else
                      do m = 1, depth
diff --git a/source/fortran/2d/quatlinrefine.m4 b/source/fortran/2d/quatlinrefine.m4
index f8c8a81..4d5d604 100644
--- a/source/fortran/2d/quatlinrefine.m4
+++ b/source/fortran/2d/quatlinrefine.m4
@@ -94,10 +94,10 @@ c
                q3(m) = arrayc(ic0+1,ic1,m)
                q4(m) = arrayc(ic0+1,ic1+1,m)
             enddo
-            call quatsymmrotate( q1, iq, q1_prime, depth )
-            call quatsymmrotate( q2, iq, q2_prime, depth )
-            call quatsymmrotate( q3, iq, q3_prime, depth )
-            call quatsymmrotate( q4, iq, q4_prime, depth )
+            call quatfindsymm( qref, q1, iq, q1_prime, depth )
+            call quatfindsymm( qref, q2, iq, q2_prime, depth )
+            call quatfindsymm( qref, q3, iq, q3_prime, depth )
+            call quatfindsymm( qref, q4, iq, q4_prime, depth )
             do m = 1, depth
                q1(m)=
      &            (q1_prime(m)+(q3_prime(m)-q1_prime(m))*x)*(one-y)
diff --git a/source/fortran/3d/quatcoarsen.m4 b/source/fortran/3d/quatcoarsen.m4
index 6e32c5e..b200623 100644
--- a/source/fortran/3d/quatcoarsen.m4
+++ b/source/fortran/3d/quatcoarsen.m4
@@ -91,7 +91,7 @@ c
                               do m = 1, depth
                                  q1(m) = qfine(if0,if1,if2,m)
                               enddo
-                              call quatsymmrotate( q1, iq, q1_prime,
+                              call quatfindsymm( q0, q1, iq, q1_prime,
      &                           depth )
                            endif
                         else
diff --git a/source/fortran/3d/quatlinrefine.m4 b/source/fortran/3d/quatlinrefine.m4
index 43007da..bed7471 100644
--- a/source/fortran/3d/quatlinrefine.m4
+++ b/source/fortran/3d/quatlinrefine.m4
@@ -123,14 +123,14 @@ c
                   q7(m) = arrayc(ic0+1,ic1,  ic2+1,m)
                   q8(m) = arrayc(ic0+1,ic1+1,ic2+1,m)
                enddo
-               call quatsymmrotate( q1, iq, q1_prime, depth )
-               call quatsymmrotate( q2, iq, q2_prime, depth )
-               call quatsymmrotate( q3, iq, q3_prime, depth )
-               call quatsymmrotate( q4, iq, q4_prime, depth )
-               call quatsymmrotate( q5, iq, q5_prime, depth )
-               call quatsymmrotate( q6, iq, q6_prime, depth )
-               call quatsymmrotate( q7, iq, q7_prime, depth )
-               call quatsymmrotate( q8, iq, q8_prime, depth )
+               call quatfindsymm( qref, q1, iq, q1_prime, depth )
+               call quatfindsymm( qref, q2, iq, q2_prime, depth )
+               call quatfindsymm( qref, q3, iq, q3_prime, depth )
+               call quatfindsymm( qref, q4, iq, q4_prime, depth )
+               call quatfindsymm( qref, q5, iq, q5_prime, depth )
+               call quatfindsymm( qref, q6, iq, q6_prime, depth )
+               call quatfindsymm( qref, q7, iq, q7_prime, depth )
+               call quatfindsymm( qref, q8, iq, q8_prime, depth )
                do m = 1, depth
                   q1(m)=
      &               ( (q1_prime(m)
-- 
2.43.0


From 0c65e9c75ecd017e6bf4a4207d1bb125ac2197b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 03/85] fix: two entries of derivquatrotationmatrixdq

d R(3,2)/dq2 is 2*q1 and d R(3,1)/dq3 is -2*q1.
---
 source/fortran/quat.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index cd6a21c..13d60ce 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1367,7 +1367,7 @@ c d/dq2
 
       matrixdRdq(1,2,2)= 2.d0*q(3)
       matrixdRdq(2,2,2)=-2.d0*q(2)
-      matrixdRdq(3,2,2)= 2.d0*q(2)
+      matrixdRdq(3,2,2)= 2.d0*q(1)
 
       matrixdRdq(1,3,2)= 2.d0*q(4)
       matrixdRdq(2,3,2)=-2.d0*q(1)
@@ -1376,7 +1376,7 @@ c d/dq2
 c d/dq3
       matrixdRdq(1,1,3)=-2.d0*q(3)
       matrixdRdq(2,1,3)= 2.d0*q(2)
-      matrixdRdq(3,1,3)= 2.d0*q(1)
+      matrixdRdq(3,1,3)=-2.d0*q(1)
 
       matrixdRdq(1,2,3)= 2.d0*q(2)
       matrixdRdq(2,2,3)= 2.d0*q(3)
-- 
2.43.0


From 46018ddccf90f5329d510f77b60b69b1f16e3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 04/85] fix: derivative of clamped linear interpolation
 function

The condition phi>0 or phi<1 is always true, so the derivative did not vanish
where the function itself is clamped to 0 or 1.
---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 3ab5965..932f0a0 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -133,7 +133,7 @@ c-----------------------------------------------------------------------
 
       else if ( type(1:1) .eq. 'l' ) then
 
-         if( phi .gt. 0.d0 .or.
+         if( phi .gt. 0.d0 .and.
      &       phi .lt. 1.d0 )then
             deriv_interp_func = 1.d0
          else
-- 
2.43.0


From 68e0ae7410ac341c24fb582a2af4cedc167c3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 05/85] fix: use clamped argument in interpolation function of
 type s

Its derivative is evaluated at the clamped argument, as for the other types.
---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 932f0a0..5f39590 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -74,7 +74,7 @@ c Moleans 2011
       else if ( type(1:1) .eq. 's' ) then
 
          phit = max( 0.d0, phi )
-         interp_func = log ( cosh (gamma*phi) )/log(cosh(gamma))
+         interp_func = log ( cosh (gamma*phit) )/log(cosh(gamma))
 
       else if ( type(1:1) .eq. 'c' ) then
 
-- 
2.43.0


From 24f6f95ad06ef2b92efd8035df066c0a72fbd8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 06/85] fix: component index in symmetry aware isotropic
 quaternion gradient for depth 1

---
 source/fortran/2d/quatgrad.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatgrad.m4 b/source/fortran/2d/quatgrad.m4
index 96f1986..4cc17ca 100644
--- a/source/fortran/2d/quatgrad.m4
+++ b/source/fortran/2d/quatgrad.m4
@@ -554,8 +554,8 @@ c                 Y component of gradient at "X" side
                
             else
 
-               d1prime(1) = diff_x(i,j-1,m)
-               d2prime(1) = diff_x(i,j+1,m)
+               d1prime(1) = diff_x(i,j-1,1)
+               d2prime(1) = diff_x(i,j+1,1)
 
             endif
 
@@ -625,8 +625,8 @@ c                 X component of gradient at "Y" side
 
             else
 
-               d1prime(1) = diff_y(i-1,j,m)
-               d2prime(1) = diff_y(i+1,j,m)
+               d1prime(1) = diff_y(i-1,j,1)
+               d2prime(1) = diff_y(i+1,j,1)
 
             endif
 
-- 
2.43.0


From 8a5920d49bd9b02a4e6141794de388f799342947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 07/85] fix: 3d phase pair forces went to wrong pairs and
 ignored cell weights

---
 source/fortran/3d/forces.m4 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/fortran/3d/forces.m4 b/source/fortran/3d/forces.m4
index 06b5b84..06e9d7b 100644
--- a/source/fortran/3d/forces.m4
+++ b/source/fortran/3d/forces.m4
@@ -48,7 +48,7 @@ c
       do p1 = 1, nphases
          do p2 = 1, nphases
             if( p1 .ne. p2 )then
-              offset = NDIM*nphases*(p1-1)+p2*2-1
+              offset = NDIM*(nphases*(p1-1)+p2-1)+1
 c integral over domain
                do k = lo2, hi2
                   do j = lo1, hi1
@@ -65,9 +65,12 @@ c integral over domain
                         fx = f*diffx
                         fy = f*diffy
                         fz = f*diffz
-                        forces(offset)   = forces(offset) + fx
-                        forces(offset+1) = forces(offset+1) + fy
-                        forces(offset+2) = forces(offset+2) + fz
+                        forces(offset) = forces(offset)
+     &                                 + fx*weight(i,j,k)
+                        forces(offset+1) = forces(offset+1)
+     &                                 + fy*weight(i,j,k)
+                        forces(offset+2) = forces(offset+2)
+     &                                 + fz*weight(i,j,k)
                      enddo
                   enddo
                enddo
-- 
2.43.0


From 9744b64d65a4720a930082ba43ecd4002959fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 08/85] fix: derivative of type i orientation mobility where
 the mobility is capped

---
 source/fortran/2d/mobility.m4 | 7 ++++++-
 source/fortran/3d/mobility.m4 | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/mobility.m4 b/source/fortran/2d/mobility.m4
index 10d85d7..59a5246 100644
--- a/source/fortran/2d/mobility.m4
+++ b/source/fortran/2d/mobility.m4
@@ -152,7 +152,12 @@ c
 
                phi = max( 1.d-6, min( 1.d0, phi ) )
                
-               dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+               if ( ( 1.d0 - phi ) / ( phi * phi )
+     &            .lt. alt_scale_factor ) then
+                  dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+               else
+                  dqfunc = 0.d0
+               endif
 
             else
 
diff --git a/source/fortran/3d/mobility.m4 b/source/fortran/3d/mobility.m4
index 2d5dd28..96e2fc4 100644
--- a/source/fortran/3d/mobility.m4
+++ b/source/fortran/3d/mobility.m4
@@ -157,7 +157,12 @@ c
 
                   phi = max( 1.d-6, min( 1.d0, phi ) )
                
-                  dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+                  if ( ( 1.d0 - phi ) / ( phi * phi )
+     &               .lt. alt_scale_factor ) then
+                     dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+                  else
+                     dqfunc = 0.d0
+                  endif
 
                else
 
-- 
2.43.0


From b760f1b391dd56de23f17008b9f9a604bce37e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 09/85] fix: multi-order coupling term subtracts phi**2 of the
 order parameter itself

---
 source/fortran/2d/multiorder.m4 | 3 ++-
 source/fortran/3d/multiorder.m4 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/multiorder.m4 b/source/fortran/2d/multiorder.m4
index 90f6959..a17261c 100644
--- a/source/fortran/2d/multiorder.m4
+++ b/source/fortran/2d/multiorder.m4
@@ -92,7 +92,8 @@ c  Phase energy well
                g_prime =
      &            phi(ic0,ic1,ip)*phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
      &            - phi(ic0,ic1,ip)
-               dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)
+               dsum = phi2sum(ic0,ic1)
+     &            - phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
                g_prime = g_prime + 2.*phi(ic0,ic1,ip)*dgamma*dsum
 
                rhs(ic0,ic1,ip) = rhs(ic0,ic1,ip) - m * g_prime
diff --git a/source/fortran/3d/multiorder.m4 b/source/fortran/3d/multiorder.m4
index a09b30c..e99a6b1 100644
--- a/source/fortran/3d/multiorder.m4
+++ b/source/fortran/3d/multiorder.m4
@@ -107,7 +107,8 @@ c  Phase energy well
                   g_prime =
      &               phi(ic0,ic1,ic2,ip)
      &               * (phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)-1.d0)
-                  dsum = phi2sum(ic0,ic1,ic2) - phi(ic0,ic1,ic2,ip)
+                  dsum = phi2sum(ic0,ic1,ic2)
+     &               - phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)
                   g_prime = g_prime + 2.*phi(ic0,ic1,ic2,ip)*dgamma*dsum
 
                   rhs(ic0,ic1,ic2,ip) = rhs(ic0,ic1,ic2,ip) - m*g_prime
-- 
2.43.0


From e34f89549b79a048b98ad60f296e63c1feea6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 10/85] fix: energy totals of a patch are added to the totals
 of the other patches

---
 source/fortran/2d/quatenergy.m4 | 3 ---
 source/fortran/3d/quatenergy.m4 | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index e8d388b..18e5095 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -375,7 +375,6 @@ c                 factor 0.25 because of cell average and double counting
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do j = lo1, hi1
             do i = lo0, hi0
@@ -431,7 +430,6 @@ c
       integer i, j
       double precision interp_func
 
-      total_free_e = 0.d0
 
       do j = lo1, hi1
          do i = lo0, hi0
@@ -530,7 +528,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do j = lo1, hi1
                do i = lo0, hi0
                   e = phi(i,j,p1)*phi(i,j,p1)
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index b9684ce..9cf4d55 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -331,7 +331,6 @@ c
 c Orientational energy: average over 2 cell faces in each direction
 c
       if ( misorientation_factor .gt. 0.d0 ) then
-         total_orient_e = 0.d0
          do k = lo2, hi2
             do j = lo1, hi1
                do i = lo0, hi0
@@ -426,7 +425,6 @@ c        factor 1/6 because of cell averaging
 c
 c q interface energy
 c
-         total_qint_e = 0.d0
          epsilonq2 = 0.5d0 * epsilon_q * epsilon_q
          do k = lo2, hi2
             do j = lo1, hi1
@@ -462,7 +460,6 @@ c                 factor 1/6 because of cell average
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do k = lo2, hi2
             do j = lo1, hi1
@@ -520,7 +517,6 @@ c
       integer i, j, k
       double precision interp_func
 
-      total_free_e = 0.d0
 
        do k = lo2, hi2
           do j = lo1, hi1
@@ -626,7 +622,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do k = lo2, hi2
                do j = lo1, hi1
                   do i = lo0, hi0
-- 
2.43.0


From 03ddaeceb267dae4123a31aa235730bea524215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 11/85] fix: gradient floor on the upper y side in 3d
 orientation energy

---
 source/fortran/3d/quatenergy.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 9cf4d55..096fbd2 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -382,8 +382,8 @@ c
                         o2 = o2 + gqy(i,j+1,k,m,n) * gqy(i,j+1,k,m,n)
                      enddo
                   enddo
-                  e = e + sqrt(o2) * p_phi
                   o2 = o2 + floor2
+                  e = e + sqrt(o2) * p_phi
 c
                   aphi = average_func(phi(i,j,k,1),phi(i,j,k-1,1),
      &                                   avg_type)
-- 
2.43.0


From 089f62ee4929af7437cc4536081ce9e127ad0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 12/85] fix: interfacial energy density is the sum over all
 pairs

---
 source/fortran/2d/quatenergy.m4 | 2 +-
 source/fortran/3d/quatenergy.m4 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index 18e5095..3c10afc 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -534,7 +534,7 @@ c
      &              * phi(i,j,p2)*phi(i,j,p2)
                   e = e * factor
                   if ( eval_per_cell /= 0 ) then
-                     edensity(i,j) = e
+                     edensity(i,j) = edensity(i,j) + e
                   endif
                   e = e * weight(i,j)
 
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 096fbd2..768b63c 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -629,7 +629,7 @@ c
      &                 * phi(i,j,k,p2)*phi(i,j,k,p2)
                      e = e * factor
                      if ( eval_per_cell /= 0 ) then
-                        edensity(i,j,k) = e
+                        edensity(i,j,k) = edensity(i,j,k) + e
                      endif
                      e = e * weight(i,j,k)
 
-- 
2.43.0


From 3b3768e978fe3fabd29d02faf3b89e686983d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 13/85] fix: multi-phase liquid fraction averaged over the
 wrong cells

---
 source/fortran/2d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationdiffusion.m4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index da11f8b..27a6b11 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -502,7 +502,7 @@ c
             phis = interp_func( vphi, interp_type )
 
             vphi = average_func(
-     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1-1,nphi), avg_type )
+     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1,nphi), avg_type )
             phil = interp_func( vphi, interp_type )
 
             invT = 2.0d0 / ( temp(ic0,ic1-1) + temp(ic0,ic1) )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 1e18855..b54ddb9 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1000,7 +1000,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
@@ -1027,7 +1027,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
-- 
2.43.0


From 765f024d2e7e938777a1adad4078d1c4951605a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 14/85] fix: 3d three-phase diffusion used only the last order
 parameter of phase B on z sides

---
 source/fortran/3d/concentrationdiffusion.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index b54ddb9..79391d2 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -573,7 +573,7 @@ c
 
                vphi = 0.d0
                do ip = 1, nphiB
-                  vphi = average_func(
+                  vphi = vphi + average_func(
      &               phiB(ic0,ic1,ic2-1,ip), phiB(ic0,ic1,ic2,ip),
      &               avg_type )
                enddo
-- 
2.43.0


From 2c1246ca70a3d31521b969af2b46dc653c4207e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 15/85] fix: interface diffusion of sides at patch boundaries
 misses the cell outside the patch

---
 source/fortran/2d/concentrationdiffusion.m4 | 59 ++++++++++----
 source/fortran/3d/concentrationdiffusion.m4 | 86 +++++++++++++++------
 2 files changed, 106 insertions(+), 39 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 27a6b11..634feec 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -910,6 +910,7 @@ c variables in 2d cell indexed
       double precision diffB1(SIDE2d1(ifirst,ilast,ngdiff))
 c
       integer ic0, ic1, ipa, ipb, ipbmin
+      logical in0, in1
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -920,8 +921,12 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
-        do ic0 = ifirst0, ilast0
+c loop over cells of the patch and their neighbors: the sides at the
+c patch boundary get a contribution from a cell outside the patch
+      do ic1 = ifirst1-1, ilast1+1
+        do ic0 = ifirst0-1, ilast0+1
+          in0 = ic0.ge.ifirst0 .and. ic0.le.ilast0
+          in1 = ic1.ge.ifirst1 .and. ic1.le.ilast1
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
 
@@ -941,20 +946,42 @@ c
 c factor 0.5 for two contributions, one from each side
                   dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
-c add contribution to four sides of each cell
-                  diffA0(ic0,ic1)   = diffA0(ic0,ic1) + dAB
-                  diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
-                  diffA1(ic0,ic1)   = diffA1(ic0,ic1) + dAB
-                  diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
-                  if( same_phase.eq.0 )then
-                    diffB0(ic0,ic1)   = diffB0(ic0,ic1)
-     &                                    + dAB
-                    diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1)   = diffB1(ic0,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1)
-     &                                    + dAB
+c add contribution to sides of each cell
+                  if( in1 )then
+                    if( ic0.ge.ifirst0 )then
+                      diffA0(ic0,ic1) =
+     &                  diffA0(ic0,ic1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB0(ic0,ic1) =
+     &                    diffB0(ic0,ic1) + dAB
+                      endif
+                    endif
+                    if( ic0.le.ilast0 )then
+                      diffA0(ic0+1,ic1) =
+     &                  diffA0(ic0+1,ic1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB0(ic0+1,ic1) =
+     &                    diffB0(ic0+1,ic1) + dAB
+                      endif
+                    endif
+                  endif
+                  if( in0 )then
+                    if( ic1.ge.ifirst1 )then
+                      diffA1(ic0,ic1) =
+     &                  diffA1(ic0,ic1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB1(ic0,ic1) =
+     &                    diffB1(ic0,ic1) + dAB
+                      endif
+                    endif
+                    if( ic1.le.ilast1 )then
+                      diffA1(ic0,ic1+1) =
+     &                  diffA1(ic0,ic1+1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB1(ic0,ic1+1) =
+     &                    diffB1(ic0,ic1+1) + dAB
+                      endif
+                    endif
                   endif
                 endif
               end do
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 79391d2..05044d4 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1080,6 +1080,7 @@ c variables in 3d cell indexed
       double precision diffB2(SIDE3d2(ifirst,ilast,ngdiff))
 c
       integer ic0, ic1, ic2, ipa, ipb, ipbmin
+      logical in0, in1, in2
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -1090,9 +1091,14 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-        do ic1 = ifirst1, ilast1
-          do ic0 = ifirst0, ilast0
+c loop over cells of the patch and their neighbors: the sides at the
+c patch boundary get a contribution from a cell outside the patch
+      do ic2 = ifirst2-1, ilast2+1
+        do ic1 = ifirst1-1, ilast1+1
+          do ic0 = ifirst0-1, ilast0+1
+            in0 = ic0.ge.ifirst0 .and. ic0.le.ilast0
+            in1 = ic1.ge.ifirst1 .and. ic1.le.ilast1
+            in2 = ic2.ge.ifirst2 .and. ic2.le.ilast2
             invT = 1.0d0 / temp(ic0,ic1,ic2)
             factorT = d0*exp(-q0_invR*invT)
 
@@ -1112,26 +1118,60 @@ c
 c factor 0.5 for two contributions, one from each side
                     dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
-c add contribution to six sides of each cell
-                    diffA0(ic0,ic1,ic2)   = diffA0(ic0,ic1,ic2) + dAB
-                    diffA0(ic0+1,ic1,ic2) = diffA0(ic0+1,ic1,ic2) + dAB
-                    diffA1(ic0,ic1,ic2)   = diffA1(ic0,ic1,ic2) + dAB
-                    diffA1(ic0,ic1+1,ic2) = diffA1(ic0,ic1+1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2)   = diffA2(ic0,ic1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2+1) = diffA2(ic0,ic1,ic2+1) + dAB
-                    if( same_phase.eq.0 )then
-                      diffB0(ic0,ic1,ic2)   = diffB0(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB0(ic0+1,ic1,ic2) = diffB0(ic0+1,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1,ic2)   = diffB1(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1+1,ic2) = diffB1(ic0,ic1+1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2)   = diffB2(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2+1) = diffB2(ic0,ic1,ic2+1)
-     &                                      + dAB
+c add contribution to sides of each cell
+                    if( in1 .and. in2 )then
+                      if( ic0.ge.ifirst0 )then
+                        diffA0(ic0,ic1,ic2) =
+     &                    diffA0(ic0,ic1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB0(ic0,ic1,ic2) =
+     &                      diffB0(ic0,ic1,ic2) + dAB
+                        endif
+                      endif
+                      if( ic0.le.ilast0 )then
+                        diffA0(ic0+1,ic1,ic2) =
+     &                    diffA0(ic0+1,ic1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB0(ic0+1,ic1,ic2) =
+     &                      diffB0(ic0+1,ic1,ic2) + dAB
+                        endif
+                      endif
+                    endif
+                    if( in0 .and. in2 )then
+                      if( ic1.ge.ifirst1 )then
+                        diffA1(ic0,ic1,ic2) =
+     &                    diffA1(ic0,ic1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB1(ic0,ic1,ic2) =
+     &                      diffB1(ic0,ic1,ic2) + dAB
+                        endif
+                      endif
+                      if( ic1.le.ilast1 )then
+                        diffA1(ic0,ic1+1,ic2) =
+     &                    diffA1(ic0,ic1+1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB1(ic0,ic1+1,ic2) =
+     &                      diffB1(ic0,ic1+1,ic2) + dAB
+                        endif
+                      endif
+                    endif
+                    if( in0 .and. in1 )then
+                      if( ic2.ge.ifirst2 )then
+                        diffA2(ic0,ic1,ic2) =
+     &                    diffA2(ic0,ic1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB2(ic0,ic1,ic2) =
+     &                      diffB2(ic0,ic1,ic2) + dAB
+                        endif
+                      endif
+                      if( ic2.le.ilast2 )then
+                        diffA2(ic0,ic1,ic2+1) =
+     &                    diffA2(ic0,ic1,ic2+1) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB2(ic0,ic1,ic2+1) =
+     &                      diffB2(ic0,ic1,ic2+1) + dAB
+                        endif
+                      endif
                     endif
                   endif
                 end do
-- 
2.43.0


From 02ca85b158afd756048f3da479a5d80b4bd8ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 16/85] fix: 3d antitrapping current with several order
 parameters uses the gradient at the side

---
 source/fortran/3d/concentrationrhs.m4 | 161 +++++++++++++-------------
 1 file changed, 82 insertions(+), 79 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 54acfec..3276a8f 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -957,8 +957,6 @@ c
       integer          ic0, ic1, ic2, ip
       double precision tol, tol2, dpdt
       double precision ac(2)
-c storage for values at +-1,+-1
-      double precision vmm, vmp, vpm, vpp
 
       tol = 1.e-8
       tol2 = tol*tol
@@ -972,19 +970,19 @@ c x-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0+1
 c compute gradient liquid phase first
-               dphix = dxinv*( phase(ic0,  ic1,ic2,norderp)
-     &                       - phase(ic0-1,ic1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0  ,ic1-1,ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1-1,ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
-
+               dphix = dxinv*(
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp) )
+               dphiy = dyinv*0.25d0*(
+     &            phase(ic0-1,ic1+1,ic2,norderp)
+     &          - phase(ic0-1,ic1-1,ic2,norderp)
+     &          + phase(ic0,ic1+1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp) )
+               dphiz = dzinv*0.25d0*(
+     &            phase(ic0-1,ic1,ic2+1,norderp)
+     &          - phase(ic0-1,ic1,ic2-1,norderp)
+     &          + phase(ic0,ic1,ic2+1,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -999,22 +997,23 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipx = dphipx + dxinv*(phase(ic0,ic1,ic2,ip)
-     &                                       -phase(ic0-1,ic1,ic2,ip))
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0  ,ic1-1,ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1-1,ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipx = dphipx + dxinv*(
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                  phase(ic0-1,ic1+1,ic2,ip)
+     &                - phase(ic0-1,ic1-1,ic2,ip)
+     &                + phase(ic0,ic1+1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                  phase(ic0-1,ic1,ic2+1,ip)
+     &                - phase(ic0-1,ic1,ic2-1,ip)
+     &                + phase(ic0,ic1,ic2+1,ip)
+     &                - phase(ic0,ic1,ic2-1,ip) )
                      dpdt = dpdt + 0.5d0*( dphidt(ic0-1,ic1,ic2,ip)
      &                                    +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphiz*dphiz
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1031,18 +1030,19 @@ c y-faces
          do ic1 = ifirst1, ilast1+1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiy = dyinv * ( phase(ic0,ic1,  ic2,norderp)
-     &                         - phase(ic0,ic1-1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphiy = dyinv*(
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp) )
+               dphix = dxinv*0.25d0*(
+     &            phase(ic0+1,ic1-1,ic2,norderp)
+     &          - phase(ic0-1,ic1-1,ic2,norderp)
+     &          + phase(ic0+1,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp) )
+               dphiz = dzinv*0.25d0*(
+     &            phase(ic0,ic1-1,ic2+1,norderp)
+     &          - phase(ic0,ic1-1,ic2-1,norderp)
+     &          + phase(ic0,ic1,ic2+1,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1057,22 +1057,23 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipy = dphipy + dyinv*( phase(ic0,ic1,  ic2,ip)
-     &                                       - phase(ic0,ic1-1,ic2,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipy = dphipy + dyinv*(
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip) )
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                  phase(ic0+1,ic1-1,ic2,ip)
+     &                - phase(ic0-1,ic1-1,ic2,ip)
+     &                + phase(ic0+1,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                  phase(ic0,ic1-1,ic2+1,ip)
+     &                - phase(ic0,ic1-1,ic2-1,ip)
+     &                + phase(ic0,ic1,ic2+1,ip)
+     &                - phase(ic0,ic1,ic2-1,ip) )
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1089,18 +1090,19 @@ c z-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiz = dzinv * ( phase(ic0,ic1,ic2,norderp)
-     &                         - phase(ic0,ic1,ic2-1,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1-1,ic2,  norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1-1,ic2,  norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiy = dyinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphiz = dzinv*(
+     &            phase(ic0,ic1,ic2,norderp)
+     &          - phase(ic0,ic1,ic2-1,norderp) )
+               dphix = dxinv*0.25d0*(
+     &            phase(ic0+1,ic1,ic2-1,norderp)
+     &          - phase(ic0-1,ic1,ic2-1,norderp)
+     &          + phase(ic0+1,ic1,ic2,norderp)
+     &          - phase(ic0-1,ic1,ic2,norderp) )
+               dphiy = dyinv*0.25d0*(
+     &            phase(ic0,ic1+1,ic2-1,norderp)
+     &          - phase(ic0,ic1-1,ic2-1,norderp)
+     &          + phase(ic0,ic1+1,ic2,norderp)
+     &          - phase(ic0,ic1-1,ic2,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1115,27 +1117,28 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipz = dphipz + dzinv*( phase(ic0,ic1,ic2,ip)
-     &                                       - phase(ic0,ic1,ic2-1,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1-1,ic2,  ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1-1,ic2,  ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipz = dphipz + dzinv*(
+     &                  phase(ic0,ic1,ic2,ip)
+     &                - phase(ic0,ic1,ic2-1,ip) )
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                  phase(ic0+1,ic1,ic2-1,ip)
+     &                - phase(ic0-1,ic1,ic2-1,ip)
+     &                + phase(ic0+1,ic1,ic2,ip)
+     &                - phase(ic0-1,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                  phase(ic0,ic1+1,ic2-1,ip)
+     &                - phase(ic0,ic1-1,ic2-1,ip)
+     &                + phase(ic0,ic1+1,ic2,ip)
+     &                - phase(ic0,ic1-1,ic2,ip) )
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
                      flux2(ic0,ic1,ic2) = flux2(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                  alpha*(dphiz/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
-- 
2.43.0


From a98e4a7c7a388ac970c7f995b09e926245f19e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 17/85] fix: 3d spinodal concentration flux overwrites the y
 fluxes when computing the z fluxes

---
 source/fortran/3d/concentrationrhs.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 3276a8f..8b554cd 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -381,14 +381,14 @@ c      print*,kappa
          do ic2 = ifirst2, ilast2+1
          do ic1 = ifirst1, ilast1
          do ic0 = ifirst0, ilast0
-            flux1(ic0,ic1,ic2,ic) = 0.d0
+            flux2(ic0,ic1,ic2,ic) = 0.d0
             do jc = 1, ncomp
                ijc=ic+(jc-1)*ncomp
                sideca = 0.5*(
      &            conca(ic0,ic1,ic2-1,jc)+conca(ic0,ic1,ic2,jc) )
                sidecb = 0.5*(
      &            concb(ic0,ic1,ic2-1,jc)+concb(ic0,ic1,ic2,jc) )
-               flux2(ic0,ic1,ic2,ic) = flux1(ic0,ic1,ic2,ic)
+               flux2(ic0,ic1,ic2,ic) = flux2(ic0,ic1,ic2,ic)
      &         + dzinv*(
      &           diffconc2(ic0,ic1,ic2,ijc) *
      &           ( conc(ic0,ic1,ic2,jc) - conc(ic0,ic1,ic2-1,jc) )
-- 
2.43.0


From 1c24b511455b1eb4f71f41d3507e4b5d6022dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 18/85] fix: residual of elliptic operators indexed with the
 ghost width of the rhs

---
 source/fortran/2d/ellipticfacops.m4 |  8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index fb09065..76e460b 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -368,8 +368,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj)
       double precision dx(0:1)
@@ -419,8 +419,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field
       double precision dx(0:1)
 
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 11d48f7..112fc10 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -479,9 +479,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj,
      &                              kfirst-sfgk:klast+sfgk)
@@ -544,9 +544,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field
       double precision dx(0:2)
 
-- 
2.43.0


From c112ff39ef1d28971d53da2d973364a8fc708180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 19/85] fix: red-black smoother skipped cells of rows with
 negative odd index

---
 source/fortran/2d/ellipticfacops.m4 | 8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index 76e460b..ee145c8 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -107,7 +107,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -178,7 +178,7 @@ c      print*,'efo_rbgswithfluxmaxcondcvarsf2d'
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -250,7 +250,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -319,7 +319,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 112fc10..b280063 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -150,7 +150,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -238,7 +238,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -332,7 +332,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -418,7 +418,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
-- 
2.43.0


From b0eee8acc49ef266787f6b2329e938416abc805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 20/85] fix: 3d antitrapping current with several order
 parameters averages the phase rate along z on z sides

---
 source/fortran/3d/concentrationrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 8b554cd..01bad7b 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -1130,7 +1130,7 @@ c loop over solid order parameters
      &                - phase(ic0,ic1-1,ic2-1,ip)
      &                + phase(ic0,ic1+1,ic2,ip)
      &                - phase(ic0,ic1-1,ic2,ip) )
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
+                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
                   dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
-- 
2.43.0


From 97baa30777209b6a360d74a9d7fc9d6c80eba63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 21/85] fix: coarse-fine flux weights computed in single
 precision

---
 source/fortran/2d/ellipticfacops.m4 | 16 ++++++++--------
 source/fortran/3d/ellipticfacops.m4 | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index ee145c8..30f14cd 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -582,7 +582,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -600,7 +600,7 @@ c        min i edge
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -618,7 +618,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -636,7 +636,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
@@ -696,7 +696,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -714,7 +714,7 @@ c     write(*,*) i, j, jq, jp
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -731,7 +731,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -748,7 +748,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index b280063..8215c10 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -749,7 +749,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -774,7 +774,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -799,7 +799,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -824,7 +824,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -849,7 +849,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -874,7 +874,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
@@ -950,7 +950,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -975,7 +975,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -1000,7 +1000,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -1025,7 +1025,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -1050,7 +1050,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -1075,7 +1075,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
-- 
2.43.0


From 68a4de9652ffd6a53ac2f0b2854c3e13af4a24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 22/85] fix: shape of the z fluxes in the 3d equation of the
 second order parameter

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index ac7a4ac..a7dbf58 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -658,7 +658,7 @@ c variables in 3d side indexed
       double precision 
      &     flux0(SIDE3d0(ifirst,ilast,ngflux)),
      &     flux1(SIDE3d1(ifirst,ilast,ngflux)),
-     &     flux2(SIDE3d1(ifirst,ilast,ngflux))
+     &     flux2(SIDE3d2(ifirst,ilast,ngflux))
 c
 c***********************************************************************
 c***********************************************************************     
-- 
2.43.0


From 51339a0767939779509b4722e6ca24b0a969fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 23/85] fix: coarse-fine orientation flux weights computed in
 single precision

---
 source/fortran/2d/quatfacops.m4 |  8 ++++----
 source/fortran/3d/quatfacops.m4 | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/fortran/2d/quatfacops.m4 b/source/fortran/2d/quatfacops.m4
index 5819ffe..c3d9950 100644
--- a/source/fortran/2d/quatfacops.m4
+++ b/source/fortran/2d/quatfacops.m4
@@ -854,7 +854,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -874,7 +874,7 @@ c        min i edge
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -894,7 +894,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -914,7 +914,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
diff --git a/source/fortran/3d/quatfacops.m4 b/source/fortran/3d/quatfacops.m4
index c9db42a..dc22a83 100644
--- a/source/fortran/3d/quatfacops.m4
+++ b/source/fortran/3d/quatfacops.m4
@@ -848,7 +848,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -876,7 +876,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -904,7 +904,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -932,7 +932,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -960,7 +960,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -988,7 +988,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
-- 
2.43.0


From edb468eb425697e963a73930f5d5efc7c8ef75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 24/85] fix: derivative of the harmonic average was the inverse
 of the actual one

d/da of h = 2ab/(a+b) is 0.5*(h/a)**2, not 0.5*(a/h)**2; return 0 where the average itself is 0.
---
 source/fortran/functions.f | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 5f39590..5730222 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -384,11 +384,12 @@ c-----------------------------------------------------------------------
 
       else if ( avg_type(1:1) .eq. 'h') then
 
-         if ( avg_phi .lt. threshold ) then
+         if ( avg_phi .lt. threshold .or.
+     &        next_phi .lt. threshold ) then
             deriv_average_func = 0.d0
          else
-            deriv_average_func = 0.5d0 * next_phi * next_phi
-     &                                 / (avg_phi * avg_phi)
+            deriv_average_func = 0.5d0 * avg_phi * avg_phi
+     &                                 / (next_phi * next_phi)
          endif
 
       else
-- 
2.43.0


From f17c33e8e6e8875f364ea58d285e9bd21b82593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 25/85] fix: second derivative of interpolation functions of
 type h and w where they are constant

---
 source/fortran/functions.f | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 5730222..c98494e 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -199,16 +199,20 @@ c=======================================================================
 
       else if ( type(1:1) .eq. 'h' ) then
 
-         phit = max( 0.d0, min( 1.d0, phi ) )
-
-         second_deriv_interp_func =
-     &      6.d0 * ( 1.d0 - 2.d0 * phit )
+         if( phi .ge. 0.d0 .and. phi .le. 1.d0 )then
+            second_deriv_interp_func =
+     &         6.d0 * ( 1.d0 - 2.d0 * phi )
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'w' ) then
 
-         phit = max( 0.d0, phi )
-
-         second_deriv_interp_func = 4.d0 - 6.d0 * phit
+         if( phi .ge. 0.d0 )then
+            second_deriv_interp_func = 4.d0 - 6.d0 * phi
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'l' ) then
 
-- 
2.43.0


From ead3696326da04668bcbb65b6e0bab2b53af5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 26/85] fix: derivative of orientation mobility where the phase
 is clamped

---
 source/fortran/2d/mobility.m4 | 4 ++++
 source/fortran/3d/mobility.m4 | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/source/fortran/2d/mobility.m4 b/source/fortran/2d/mobility.m4
index 59a5246..b4be280 100644
--- a/source/fortran/2d/mobility.m4
+++ b/source/fortran/2d/mobility.m4
@@ -167,6 +167,10 @@ c
 
             endif
 
+c the mobility does not depend on phase where phase is clamped
+            if ( phase(i0,i1) .lt. 0.d0 .or.
+     &           phase(i0,i1) .gt. 1.d0 ) dqfunc = 0.d0
+
             dmobility(i0,i1) = 
      &         (scale_mobility-min_mobility) * dqfunc
 
diff --git a/source/fortran/3d/mobility.m4 b/source/fortran/3d/mobility.m4
index 96e2fc4..6cd366d 100644
--- a/source/fortran/3d/mobility.m4
+++ b/source/fortran/3d/mobility.m4
@@ -172,6 +172,10 @@ c
 
                endif
 
+c the mobility does not depend on phase where phase is clamped
+               if ( phase(i0,i1,i2) .lt. 0.d0 .or.
+     &              phase(i0,i1,i2) .gt. 1.d0 ) dqfunc = 0.d0
+
                dmobility(i0,i1,i2) = 
      &            (scale_mobility-min_mobility) * dqfunc
 
-- 
2.43.0


From ad05ec60cd08ab2366e8e570f97881c6924276cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 27/85] fix: initialize visualization output flags when there
 is no Visit input

---
 source/QuatModelParameters.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index db33ce1..49a8bd6 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -131,6 +131,12 @@ QuatModelParameters::QuatModelParameters() : d_moving_frame_velocity(def_val)
    d_vd = -1.;
    d_with_velocity = false;
    d_use_diffs_to_compute_flux = false;
+
+   // overwritten by readVisitOptions() if there is a Visit input
+   d_extra_visit_output = false;
+   d_rhs_visit_output = false;
+   d_visit_energy_output = false;
+   d_visit_grain_output = false;
 }
 
 //=======================================================================
-- 
2.43.0


From 9c961551783ff621cf2bbaa515ea2ca79f990ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 28/85] fix: no boundary flags of a third direction in two
 dimensions

---
 source/CALPHADequilibriumPhaseConcentrationsStrategy.cc | 2 ++
 source/EBSCompositionRHSStrategy.cc                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc b/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
index 2cb6f4f..62876d1 100644
--- a/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
+++ b/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
@@ -312,12 +312,14 @@ int CALPHADequilibriumPhaseConcentrationsStrategy<FreeEnergyType>::
       if (pg->getTouchesRegularBoundary(1, 1)) {
          imax[1]--;
       }
+#if (NDIM == 3)
       if (pg->getTouchesRegularBoundary(2, 0)) {
          imin[2]++;
       }
       if (pg->getTouchesRegularBoundary(2, 1)) {
          imax[2]--;
       }
+#endif
    }
 
    int nits = 0;
diff --git a/source/EBSCompositionRHSStrategy.cc b/source/EBSCompositionRHSStrategy.cc
index 2232f8d..3c33fa7 100644
--- a/source/EBSCompositionRHSStrategy.cc
+++ b/source/EBSCompositionRHSStrategy.cc
@@ -247,12 +247,14 @@ void EBSCompositionRHSStrategy::computeFluxOnPatch(hier::Patch& patch,
    if (pg->getTouchesRegularBoundary(1, 1)) {
       physbc[3] = 1;
    }
+#if (NDIM == 3)
    if (pg->getTouchesRegularBoundary(2, 0)) {
       physbc[4] = 1;
    }
    if (pg->getTouchesRegularBoundary(2, 1)) {
       physbc[5] = 1;
    }
+#endif
 
 
    // now add components of concentration flux,
-- 
2.43.0


From 310e21763459b870dae38204e47fda30581522bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:15 +0000
Subject: [PATCH 29/85] fix: no boundary helper for dphi/dt in periodic domains

---
 source/QuatIntegrator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 594e1bd..2146f53 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -121,6 +121,7 @@ QuatIntegrator::QuatIntegrator(
       d_show_conc_sys_stats(false),
       d_conc_bc_coefs(nullptr),
       d_dphidt_bc_coefs(nullptr),
+      d_dphidt_bc_helper(nullptr),
       // private data members
       d_name(name),
       d_model_parameters(model_parameters),
-- 
2.43.0


From 7fe84513cd022732f209f0c679a3754fbdbb9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:34 +0000
Subject: [PATCH 30/85] fix: set the constant heat capacity on every level,
 also after regridding

---
 source/ConstantHeatCapacityStrategy.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/ConstantHeatCapacityStrategy.cc b/source/ConstantHeatCapacityStrategy.cc
index 8bf827b..f3ba3a3 100644
--- a/source/ConstantHeatCapacityStrategy.cc
+++ b/source/ConstantHeatCapacityStrategy.cc
@@ -25,12 +25,7 @@ void ConstantHeatCapacityStrategy::setCurrentValue(
 {
    assert(d_cp_id >= 0);
 
-   static bool first_time = true;
-
-   if (first_time) {
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_cp_id, d_cp);
-   }
-
-   first_time = false;
+   // levels created by regridding have to be set too
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_cp_id, d_cp);
 }
-- 
2.43.0


From da01830cc0981f774f40032d88f095670d2e99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 31/85] fix: face coefficients of the orientation have one
 component in the symmetry correction

---
 source/QuatIntegrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 2146f53..0e13cb0 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -4005,7 +4005,7 @@ void QuatIntegrator::correctRhsForSymmetry(
              SAMRAI_SHARED_PTR_CAST<pdat::SideData<double>, hier::PatchData>(
                  patch->getPatchData(face_coeff_id)));
          assert(face_coeff);
-         assert(face_coeff->getDepth() == d_qlen);
+         assert(face_coeff->getDepth() == 1);
          assert(face_coeff->getGhostCellWidth() ==
                 hier::IntVector(tbox::Dimension(NDIM), 0));
 
-- 
2.43.0


From 8382f85412b69da810c316d8af5829a9f2d641f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 32/85] fix: diffusivities of several phases in the ghost sides
 that the isotropic stencil needs

---
 source/fortran/2d/concentrationdiffusion.m4 | 30 ++++++-----
 source/fortran/3d/concentrationdiffusion.m4 | 55 +++++++++++----------
 2 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 634feec..67b2f9c 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -468,7 +468,7 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
             vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -493,7 +493,7 @@ c assuming the first nphi-1 order parameters are solid phase
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
             vphi = 0.d0
             do ip = 1, nphi-1
                vphi = vphi + average_func(
@@ -569,7 +569,7 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
 
             vphi = 0.d0
@@ -603,7 +603,7 @@ c
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
             vphi = 0.d0
             do ip = 1, nphiA
@@ -909,7 +909,7 @@ c variables in 2d cell indexed
       double precision diffB0(SIDE2d0(ifirst,ilast,ngdiff))
       double precision diffB1(SIDE2d1(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ipa, ipb, ipbmin
+      integer ic0, ic1, ipa, ipb, ipbmin, ngb
       logical in0, in1
       double precision pa, pb, invT, factorT
       double precision q0_invR
@@ -923,10 +923,14 @@ c
 c
 c loop over cells of the patch and their neighbors: the sides at the
 c patch boundary get a contribution from a cell outside the patch
-      do ic1 = ifirst1-1, ilast1+1
-        do ic0 = ifirst0-1, ilast0+1
-          in0 = ic0.ge.ifirst0 .and. ic0.le.ilast0
-          in1 = ic1.ge.ifirst1 .and. ic1.le.ilast1
+c (in the other directions, ngdiff ghost sides are set too)
+      ngb = max(1, ngdiff)
+      do ic1 = ifirst1-ngb, ilast1+ngb
+        do ic0 = ifirst0-ngb, ilast0+ngb
+          in0 = ic0.ge.ifirst0-ngdiff
+     &          .and. ic0.le.ilast0+ngdiff
+          in1 = ic1.ge.ifirst1-ngdiff
+     &          .and. ic1.le.ilast1+ngdiff
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
 
@@ -948,7 +952,7 @@ c factor 0.5 for two contributions, one from each side
 
 c add contribution to sides of each cell
                   if( in1 )then
-                    if( ic0.ge.ifirst0 )then
+                    if( ic0.ge.ifirst0 .and. ic0.le.ilast0+1 )then
                       diffA0(ic0,ic1) =
      &                  diffA0(ic0,ic1) + dAB
                       if( same_phase.eq.0 )then
@@ -956,7 +960,7 @@ c add contribution to sides of each cell
      &                    diffB0(ic0,ic1) + dAB
                       endif
                     endif
-                    if( ic0.le.ilast0 )then
+                    if( ic0.le.ilast0 .and. ic0.ge.ifirst0-1 )then
                       diffA0(ic0+1,ic1) =
      &                  diffA0(ic0+1,ic1) + dAB
                       if( same_phase.eq.0 )then
@@ -966,7 +970,7 @@ c add contribution to sides of each cell
                     endif
                   endif
                   if( in0 )then
-                    if( ic1.ge.ifirst1 )then
+                    if( ic1.ge.ifirst1 .and. ic1.le.ilast1+1 )then
                       diffA1(ic0,ic1) =
      &                  diffA1(ic0,ic1) + dAB
                       if( same_phase.eq.0 )then
@@ -974,7 +978,7 @@ c add contribution to sides of each cell
      &                    diffB1(ic0,ic1) + dAB
                       endif
                     endif
-                    if( ic1.le.ilast1 )then
+                    if( ic1.le.ilast1 .and. ic1.ge.ifirst1-1 )then
                       diffA1(ic0,ic1+1) =
      &                  diffA1(ic0,ic1+1) + dAB
                       if( same_phase.eq.0 )then
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 05044d4..686d551 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -481,8 +481,8 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
 
                vphi = 0.d0
@@ -520,9 +520,9 @@ c
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -560,8 +560,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -960,8 +960,8 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
                vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -988,9 +988,9 @@ c assuming the first nphi-1 order parameters are solid phase
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
@@ -1016,8 +1016,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
@@ -1079,7 +1079,7 @@ c variables in 3d cell indexed
       double precision diffB1(SIDE3d1(ifirst,ilast,ngdiff))
       double precision diffB2(SIDE3d2(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ic2, ipa, ipb, ipbmin
+      integer ic0, ic1, ic2, ipa, ipb, ipbmin, ngb
       logical in0, in1, in2
       double precision pa, pb, invT, factorT
       double precision q0_invR
@@ -1093,12 +1093,17 @@ c
 c
 c loop over cells of the patch and their neighbors: the sides at the
 c patch boundary get a contribution from a cell outside the patch
-      do ic2 = ifirst2-1, ilast2+1
-        do ic1 = ifirst1-1, ilast1+1
-          do ic0 = ifirst0-1, ilast0+1
-            in0 = ic0.ge.ifirst0 .and. ic0.le.ilast0
-            in1 = ic1.ge.ifirst1 .and. ic1.le.ilast1
-            in2 = ic2.ge.ifirst2 .and. ic2.le.ilast2
+c (in the other directions, ngdiff ghost sides are set too)
+      ngb = max(1, ngdiff)
+      do ic2 = ifirst2-ngb, ilast2+ngb
+        do ic1 = ifirst1-ngb, ilast1+ngb
+          do ic0 = ifirst0-ngb, ilast0+ngb
+            in0 = ic0.ge.ifirst0-ngdiff
+     &            .and. ic0.le.ilast0+ngdiff
+            in1 = ic1.ge.ifirst1-ngdiff
+     &            .and. ic1.le.ilast1+ngdiff
+            in2 = ic2.ge.ifirst2-ngdiff
+     &            .and. ic2.le.ilast2+ngdiff
             invT = 1.0d0 / temp(ic0,ic1,ic2)
             factorT = d0*exp(-q0_invR*invT)
 
@@ -1120,7 +1125,7 @@ c factor 0.5 for two contributions, one from each side
 
 c add contribution to sides of each cell
                     if( in1 .and. in2 )then
-                      if( ic0.ge.ifirst0 )then
+                      if( ic0.ge.ifirst0 .and. ic0.le.ilast0+1 )then
                         diffA0(ic0,ic1,ic2) =
      &                    diffA0(ic0,ic1,ic2) + dAB
                         if( same_phase.eq.0 )then
@@ -1128,7 +1133,7 @@ c add contribution to sides of each cell
      &                      diffB0(ic0,ic1,ic2) + dAB
                         endif
                       endif
-                      if( ic0.le.ilast0 )then
+                      if( ic0.le.ilast0 .and. ic0.ge.ifirst0-1 )then
                         diffA0(ic0+1,ic1,ic2) =
      &                    diffA0(ic0+1,ic1,ic2) + dAB
                         if( same_phase.eq.0 )then
@@ -1138,7 +1143,7 @@ c add contribution to sides of each cell
                       endif
                     endif
                     if( in0 .and. in2 )then
-                      if( ic1.ge.ifirst1 )then
+                      if( ic1.ge.ifirst1 .and. ic1.le.ilast1+1 )then
                         diffA1(ic0,ic1,ic2) =
      &                    diffA1(ic0,ic1,ic2) + dAB
                         if( same_phase.eq.0 )then
@@ -1146,7 +1151,7 @@ c add contribution to sides of each cell
      &                      diffB1(ic0,ic1,ic2) + dAB
                         endif
                       endif
-                      if( ic1.le.ilast1 )then
+                      if( ic1.le.ilast1 .and. ic1.ge.ifirst1-1 )then
                         diffA1(ic0,ic1+1,ic2) =
      &                    diffA1(ic0,ic1+1,ic2) + dAB
                         if( same_phase.eq.0 )then
@@ -1156,7 +1161,7 @@ c add contribution to sides of each cell
                       endif
                     endif
                     if( in0 .and. in1 )then
-                      if( ic2.ge.ifirst2 )then
+                      if( ic2.ge.ifirst2 .and. ic2.le.ilast2+1 )then
                         diffA2(ic0,ic1,ic2) =
      &                    diffA2(ic0,ic1,ic2) + dAB
                         if( same_phase.eq.0 )then
@@ -1164,7 +1169,7 @@ c add contribution to sides of each cell
      &                      diffB2(ic0,ic1,ic2) + dAB
                         endif
                       endif
-                      if( ic2.le.ilast2 )then
+                      if( ic2.le.ilast2 .and. ic2.ge.ifirst2-1 )then
                         diffA2(ic0,ic1,ic2+1) =
      &                    diffA2(ic0,ic1,ic2+1) + dAB
                         if( same_phase.eq.0 )then
-- 
2.43.0


From 1c8717ae913ae6589c0d4e8606db0f9df386ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 33/85] fix: composition dependent diffusivities in the ghost
 sides that the isotropic stencil needs

---
 .../MobilityCompositionDiffusionStrategy.cc   | 40 +++++++++++++------
 source/QuatModel.cc                           |  4 +-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/source/MobilityCompositionDiffusionStrategy.cc b/source/MobilityCompositionDiffusionStrategy.cc
index 913b2fc..dfcaa25 100644
--- a/source/MobilityCompositionDiffusionStrategy.cc
+++ b/source/MobilityCompositionDiffusionStrategy.cc
@@ -276,6 +276,14 @@ void MobilityCompositionDiffusionStrategy::setDiffCoeffInEachPhaseOnPatch(
    kp_temp = jp_temp * temp_gbox.numberCells(1);
 #endif
 
+   // sides are also needed in ghost cells by the "isotropic" stencil
+   const int ng = sd_d_coeff_l->getGhostCellWidth()[0];
+#if (NDIM == 3)
+   const int ngz = ng;
+#else
+   const int ngz = 0;
+#endif
+
    int imin = pbox.lower(0);
    int imax = pbox.upper(0);
    int jmin = pbox.lower(1);
@@ -291,8 +299,8 @@ void MobilityCompositionDiffusionStrategy::setDiffCoeffInEachPhaseOnPatch(
    std::vector<double> c_a(d_ncompositions);
 
    // X-side
-   for (int kk = kmin; kk <= kmax; kk++) {
-      for (int jj = jmin; jj <= jmax; jj++) {
+   for (int kk = kmin - ngz; kk <= kmax + ngz; kk++) {
+      for (int jj = jmin - ng; jj <= jmax + ng; jj++) {
          for (int ii = imin; ii <= imax + 1; ii++) {
 
             const int idx_dcoeff =
@@ -330,9 +338,9 @@ void MobilityCompositionDiffusionStrategy::setDiffCoeffInEachPhaseOnPatch(
    }
 
    // Y-side
-   for (int kk = kmin; kk <= kmax; kk++) {
+   for (int kk = kmin - ngz; kk <= kmax + ngz; kk++) {
       for (int jj = jmin; jj <= jmax + 1; jj++) {
-         for (int ii = imin; ii <= imax; ii++) {
+         for (int ii = imin - ng; ii <= imax + ng; ii++) {
 
             const int idx_dcoeff = (ii - imin_dcoeff) +
                                    (jj - jmin_dcoeff) * jp_dcoeff +
@@ -367,8 +375,8 @@ void MobilityCompositionDiffusionStrategy::setDiffCoeffInEachPhaseOnPatch(
    if (NDIM > 2) {
       // Z-side
       for (int kk = kmin; kk <= kmax + 1; kk++) {
-         for (int jj = jmin; jj <= jmax; jj++) {
-            for (int ii = imin; ii <= imax; ii++) {
+         for (int jj = jmin - ng; jj <= jmax + ng; jj++) {
+            for (int ii = imin - ng; ii <= imax + ng; ii++) {
 
                const int idx_dcoeff = (ii - imin_dcoeff) +
                                       (jj - jmin_dcoeff) * jp_dcoeff +
@@ -511,6 +519,14 @@ void MobilityCompositionDiffusionStrategy::setPFMDiffOnPatch(
    kp_pf = jp_pf * pf_gbox.numberCells(1);
 #endif
 
+   // sides are also needed in ghost cells by the "isotropic" stencil
+   const int ng = sd_pfmd_l->getGhostCellWidth()[0];
+#if (NDIM == 3)
+   const int ngz = ng;
+#else
+   const int ngz = 0;
+#endif
+
    int imin = pbox.lower(0);
    int imax = pbox.upper(0);
    int jmin = pbox.lower(1);
@@ -525,8 +541,8 @@ void MobilityCompositionDiffusionStrategy::setPFMDiffOnPatch(
    const char interp_func_char = interpChar();
 
    // X-side
-   for (int kk = kmin; kk <= kmax; kk++) {
-      for (int jj = jmin; jj <= jmax; jj++) {
+   for (int kk = kmin - ngz; kk <= kmax + ngz; kk++) {
+      for (int jj = jmin - ng; jj <= jmax + ng; jj++) {
          for (int ii = imin; ii <= imax + 1; ii++) {
 
             const int idx_dcoeff =
@@ -553,9 +569,9 @@ void MobilityCompositionDiffusionStrategy::setPFMDiffOnPatch(
    }
 
    // Y-side
-   for (int kk = kmin; kk <= kmax; kk++) {
+   for (int kk = kmin - ngz; kk <= kmax + ngz; kk++) {
       for (int jj = jmin; jj <= jmax + 1; jj++) {
-         for (int ii = imin; ii <= imax; ii++) {
+         for (int ii = imin - ng; ii <= imax + ng; ii++) {
 
             const int idx_dcoeff = (ii - imin_dcoeff) +
                                    (jj - jmin_dcoeff) * jp_dcoeff +
@@ -582,8 +598,8 @@ void MobilityCompositionDiffusionStrategy::setPFMDiffOnPatch(
    if (NDIM > 2) {
       // Z-side
       for (int kk = kmin; kk <= kmax + 1; kk++) {
-         for (int jj = jmin; jj <= jmax; jj++) {
-            for (int ii = imin; ii <= imax; ii++) {
+         for (int jj = jmin - ng; jj <= jmax + ng; jj++) {
+            for (int ii = imin - ng; ii <= imax + ng; ii++) {
 
                const int idx_dcoeff = (ii - imin_dcoeff) +
                                       (jj - jmin_dcoeff) * jp_dcoeff +
diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index d545241..9c72a30 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -1306,7 +1306,7 @@ void QuatModel::registerPhaseConcentrationDiffusionVariables()
    assert(d_conc_diffusion_coeff_l_var);
    d_conc_diffusion_coeff_l_id = variable_db->registerVariableAndContext(
        d_conc_diffusion_coeff_l_var, current,
-       hier::IntVector(tbox::Dimension(NDIM), 0));
+       hier::IntVector(tbox::Dimension(NDIM), nghosts));
    assert(d_conc_diffusion_coeff_l_id >= 0);
 
    d_conc_diffusion_coeff_a_var.reset(
@@ -1316,7 +1316,7 @@ void QuatModel::registerPhaseConcentrationDiffusionVariables()
    assert(d_conc_diffusion_coeff_a_var);
    d_conc_diffusion_coeff_a_id = variable_db->registerVariableAndContext(
        d_conc_diffusion_coeff_a_var, current,
-       hier::IntVector(tbox::Dimension(NDIM), 0));
+       hier::IntVector(tbox::Dimension(NDIM), nghosts));
    assert(d_conc_diffusion_coeff_a_id >= 0);
 
 
-- 
2.43.0


From 1d77a7946356cf76f081247319d1f700c9dc258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 34/85] fix: every solid grain feels forces and moves as a
 rigid body

---
 source/QuatIntegrator.cc         | 2 +-
 source/RigidBodyForces.cc        | 3 ++-
 source/RigidBodyMotionConcRHS.cc | 4 +++-
 source/RigidBodyMotionRHS.cc     | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 0e13cb0..aa2b465 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2507,7 +2507,7 @@ void QuatIntegrator::evaluatePhaseRHS(
 
       assert(d_rigid_body_forces);
       d_rigid_body_forces->evaluatePairForces(hierarchy);
-      for (int i = 0; i < d_model_parameters.norderp() - 1; i++) {
+      for (int i = 0; i < nop; i++) {
          // sum up forces contributions from all other particles
          for (int j = 0; j < nop; j++) {
             if (j != i) {
diff --git a/source/RigidBodyForces.cc b/source/RigidBodyForces.cc
index 9a24814..4ac6fd6 100644
--- a/source/RigidBodyForces.cc
+++ b/source/RigidBodyForces.cc
@@ -24,7 +24,8 @@ RigidBodyForces::RigidBodyForces(const QuatModelParameters& model_parameters,
 {
    // forces between solid particles only, not liquid phase (last order
    // parameter)
-   const int nforces = d_model_parameters.norderpA();
+   const int nforces =
+       d_model_parameters.norderpA() + d_model_parameters.norderpB();
    d_forces.resize(nforces);
    for (auto& f : d_forces)
       f.resize(nforces);
diff --git a/source/RigidBodyMotionConcRHS.cc b/source/RigidBodyMotionConcRHS.cc
index 058c1dc..4a0d249 100644
--- a/source/RigidBodyMotionConcRHS.cc
+++ b/source/RigidBodyMotionConcRHS.cc
@@ -82,7 +82,9 @@ void RigidBodyMotionConcRHS::addRHS(
          assert(data->getGhostCellWidth()[0] > 0);
          assert(data_rhs->getDepth() == 1);
 
-         const short nfield = data->getDepth() - 1;
+         // one velocity for each moving body
+         const short nfield = velocities.size();
+         assert(nfield <= data->getDepth());
 
          // div ( c v ) = div ( sum_i eta_i * v_i )
          for (short i = 0; i < nfield; i++) {
diff --git a/source/RigidBodyMotionRHS.cc b/source/RigidBodyMotionRHS.cc
index 604da1a..544aac0 100644
--- a/source/RigidBodyMotionRHS.cc
+++ b/source/RigidBodyMotionRHS.cc
@@ -83,7 +83,9 @@ void RigidBodyMotionRHS::addRHS(
          assert(data->getGhostCellWidth()[0] > 0);
          assert(data->getDepth() == data_rhs->getDepth());
 
-         const short nfield = data->getDepth() - 1;
+         // one velocity for each moving body
+         const short nfield = velocities.size();
+         assert(nfield <= data->getDepth());
 
          for (short i = 0; i < nfield; i++) {
             const double* const velocity = velocities[i].data();
-- 
2.43.0


From 75b70e1e7e934abe9136ce67e3ff4907073f3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 35/85] fix: use the selected well function in the phase
 equation

---
 source/PhaseRHSStrategyWithQ.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/PhaseRHSStrategyWithQ.cc b/source/PhaseRHSStrategyWithQ.cc
index f1676c7..645c343 100644
--- a/source/PhaseRHSStrategyWithQ.cc
+++ b/source/PhaseRHSStrategyWithQ.cc
@@ -240,7 +240,10 @@ void PhaseRHSStrategyWithQ::evaluateRHS(const double time,
    double l2f = ops.L2Norm(phase_flux, pbox);
    assert(l2f == l2f);
 #endif
-   char well_func_type = 'd';
+   const std::string phase_well_func_type =
+       d_model_parameters.phase_well_func_type();
+   const std::string eta_well_func_type =
+       d_model_parameters.eta_well_func_type();
    const char interpf = energyInterpChar(d_energy_interp_func_type);
 
    // first compute component from interfacial energy
@@ -258,7 +261,8 @@ void PhaseRHSStrategyWithQ::evaluateRHS(const double time,
                  d_eta_well_scale, phase->getPointer(),
                  phase->getGhostCellWidth()[0], ptr_eta, ngeta,
                  ptr_quat_grad_modulus, 0, phase_rhs->getPointer(), 0,
-                 &well_func_type, &well_func_type, &interpf,
+                 phase_well_func_type.c_str(), eta_well_func_type.c_str(),
+                 &interpf,
                  d_orient_interp_func_type1.c_str(),
                  d_orient_interp_func_type2.c_str(), with_orient, three_phase);
 
-- 
2.43.0


From d70a8c5ea7d0e2e1a0ef9aba16a7541c28ba7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 36/85] fix: weights of the averaged temperature in double
 precision

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index a7dbf58..80068d3 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -1059,7 +1059,7 @@ c
       double precision deriv_interp_func
 c
       alpha = latentheat/tm
-      woff = 0.25/6.
+      woff = 0.25d0/6.d0
 c
       do ic2 = ifirst2, ilast2
          do ic1 = ifirst1, ilast1
-- 
2.43.0


From b2cc3dc92ffaddc34f19d21c38f1a006136a0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 37/85] fix: partition coefficient of the y and z sides in the
 Beckermann model

---
 source/BeckermannCompositionRHSStrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index ef77481..8a2c444 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -249,7 +249,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
    kp_k = jp_k * k_gbox.numberCells(1);
 #endif
 
-   const hier::Box& c_i_gbox = cd_k->getGhostBox();
+   const hier::Box& c_i_gbox = cd_c->getGhostBox();
    int imin_c_i = c_i_gbox.lower(0);
    int jmin_c_i = c_i_gbox.lower(1);
    int jp_c_i = c_i_gbox.numberCells(0);
@@ -328,7 +328,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
             const int idx_k =
                 (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-            const int idxm1_k = idx_k - 1;
+            const int idxm1_k = idx_k - jp_k;
 
             // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
             double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
@@ -366,7 +366,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
                const int idx_k =
                    (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-               const int idxm1_k = idx_k - 1;
+               const int idxm1_k = idx_k - kp_k;
 
                // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
                double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
-- 
2.43.0


From 68c8adef28284e83e4c8ced00ce344a48f6bc4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 38/85] fix: partition coefficient interpolated on the sides in
 the Beckermann diffusivity

---
 source/fortran/2d/concentrationdiffusion.m4 |  8 ++++++--
 source/fortran/3d/concentrationdiffusion.m4 | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 67b2f9c..1bb2ee9 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -774,7 +774,9 @@ c
             
             hphi = interp_func( vphi, interp_type )
             
-            k = partition_coeff(ic0,ic1)
+            k = average_func(
+     &         partition_coeff(ic0-1,ic1), partition_coeff(ic0,ic1),
+     &         avg_type )
 
             diff0(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -791,7 +793,9 @@ c
 
             hphi = interp_func( vphi, interp_type )
 
-            k = partition_coeff(ic0,ic1)
+            k = average_func(
+     &         partition_coeff(ic0,ic1-1), partition_coeff(ic0,ic1),
+     &         avg_type )
 
             diff1(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 686d551..3885d83 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -777,7 +777,9 @@ c
                
                hphi = interp_func( vphi, interp_type )
                
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0-1,ic1,ic2),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff0(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -796,7 +798,9 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0,ic1-1,ic2),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff1(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -815,7 +819,9 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0,ic1,ic2-1),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff2(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
-- 
2.43.0


From 885f2a4f566033fe3e09798597369b27a3a65d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 39/85] fix: heat capacity coefficients of every power follow
 the temperature unit

---
 source/QuatModelParameters.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index 49a8bd6..137e441 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -11,6 +11,8 @@
 #include "QuatModelParameters.h"
 #include "PhysicalConstants.h"
 
+#include <cmath>
+
 const double gas_constant_R_JpKpmol = GASCONSTANT_R_JPKPMOL;
 
 static double def_val = tbox::IEEE::getSignalingNaN();
@@ -570,7 +572,8 @@ void QuatModelParameters::readTemperatureModel(
               it != d_cp.end(); ++it) {
             for (std::map<short, double>::iterator itm = it->begin();
                  itm != it->end(); ++itm) {
-               itm->second *= d_rescale_factorT;
+               // coefficient of T^n in a derivative with respect to T
+               itm->second *= std::pow(d_rescale_factorT, itm->first + 1);
                tbox::plog << "rescaled Cp: " << itm->second << std::endl;
             }
          }
-- 
2.43.0


From 58d56a62a59744c6dfed16568a6938ef0aa0723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:09 +0000
Subject: [PATCH 40/85] fix: apply the symmetry correction to plain orientation
 differences

---
 source/QuatIntegrator.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index aa2b465..402ff51 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2703,11 +2703,14 @@ void QuatIntegrator::evaluateQuatRHS(
        d_use_gradq_for_flux ? d_quat_symm_rotation_id : -1;
 
    // compute RHS using the gradient of q at sides (d_quat_grad_side_id)
-   // computed with physical BC
+   // computed with physical BC, unless the symmetry correction below is going
+   // to replace the plain differences of q by the symmetric ones
+   const bool correct_for_symmetry = d_symmetry_aware && !d_use_gradq_for_flux;
    d_quat_sys_solver->evaluateRHS(d_phase_scratch_id, d_temperature_scratch_id,
                                   d_quat_grad_side_id, d_quat_grad_side_copy_id,
                                   quat_symm_rotation_id, d_quat_mobility_id,
-                                  d_quat_scratch_id, quat_rhs_id, true);
+                                  d_quat_scratch_id, quat_rhs_id,
+                                  !correct_for_symmetry);
 
 
    if (visit_flag && d_model_parameters.with_rhs_visit_output())
@@ -2740,7 +2743,7 @@ void QuatIntegrator::evaluateQuatRHS(
 
    // correction needed if d_quat_sys_solver
    // doesn't know about symmetry!
-   if (d_symmetry_aware && !d_use_gradq_for_flux) {
+   if (correct_for_symmetry) {
       // tbox::pout<<"Correct r.h.s. for symmetry..."<<endl;
       correctRhsForSymmetry(hierarchy, d_quat_scratch_id, quat_rhs_id);
    }
-- 
2.43.0


From 779d80e81345b8dfaf5e06a248d8166e27ddf2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:17 +0000
Subject: [PATCH 41/85] fix: apply the mobility of the sintering model once

---
 source/CompositionRHSStrategyFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/CompositionRHSStrategyFactory.h b/source/CompositionRHSStrategyFactory.h
index 9fe2971..a655e2b 100644
--- a/source/CompositionRHSStrategyFactory.h
+++ b/source/CompositionRHSStrategyFactory.h
@@ -89,7 +89,8 @@ class CompositionRHSStrategyFactory
       } else if (model_parameters.isConcentrationModelWangSintering()) {
          strategy.reset(new WangSinteringCompositionRHSStrategy(
              conc_scratch_id, phase_scratch_id, temperature_scratch_id,
-             conc_pfm_diffusion_id[0], model_parameters.conc_mobility(),
+             conc_pfm_diffusion_id[0],
+             1.,  // mobility multiplied after div of flux is taken
              model_parameters.WangSintering_A(),
              model_parameters.WangSintering_B(),
              model_parameters.WangSintering_beta_rho(),
-- 
2.43.0


From 317b62345a34339fbc66d8d129034fdffa18c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 42/85] fix: move a Gaussian temperature spot whose peak is
 constant

---
 source/GaussianTemperatureStrategy.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/GaussianTemperatureStrategy.cc b/source/GaussianTemperatureStrategy.cc
index d3eb95c..a904269 100644
--- a/source/GaussianTemperatureStrategy.cc
+++ b/source/GaussianTemperatureStrategy.cc
@@ -129,7 +129,11 @@ void GaussianTemperatureStrategy::setCurrentTemperature(
       }
    }
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   bool moving = false;
+   for (short d = 0; d < NDIM; d++)
+      moving = moving || d_velocity[d] != 0.;
+
+   if (d_dtemperaturedt != 0.0 || moving || time == 0.0) {
 
       double tgaussian = getCurrentTemperature(time);
 
-- 
2.43.0


From f253d8834e6664943869ceb4b980636c3bdbc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 43/85] fix: temperature history at its first position

---
 source/TemperatureHistory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/TemperatureHistory.cc b/source/TemperatureHistory.cc
index d6033b3..a7ca42f 100644
--- a/source/TemperatureHistory.cc
+++ b/source/TemperatureHistory.cc
@@ -112,7 +112,7 @@ int TemperatureHistory::getTandGradT(const double time, const double position,
       else
          break;
    }
-   ipos--;
+   if (ipos > 0) ipos--;
    if ((ipos + 1) >= d_positions.size()) {
       d_os << "Position " << position
            << " is beyond range defined in TemperatureHistory" << std::endl;
-- 
2.43.0


From d7e2026e50a238b23d84026fbf41d82b9b2a1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 44/85] fix: boundary conditions tabulated in time at the end
 of their table

---
 source/TimeLocationIndexRobinBcCoefs.cc | 50 ++++++-------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/source/TimeLocationIndexRobinBcCoefs.cc b/source/TimeLocationIndexRobinBcCoefs.cc
index 17e3fe1..4ff6d0d 100644
--- a/source/TimeLocationIndexRobinBcCoefs.cc
+++ b/source/TimeLocationIndexRobinBcCoefs.cc
@@ -143,48 +143,21 @@ void TimeLocationIndexRobinBcCoefs::setBcCoefs(
    TBOX_ASSERT(location >= 0 && location < 2 * d_dim.getValue());
    TBOX_ASSERT(d_t_map[location].size() > 0);
 
-   static int prev_time_slot[6] = {0, 0, 0, 0, 0, 0};
-   static int next_time_slot[6] = {1, 1, 1, 1, 1, 1};
-
-   // specify how far from previous interval we should search for current
-   // interval. This is necessary since this function may be called for a
-   // time value smaller than in previous call
-   int search_range = 10;
-
-   prev_time_slot[location] -= search_range;
-   prev_time_slot[location] = std::max(prev_time_slot[location], 1);
-   // loop over time slot until we reach a time larger than fill_time
-   while (d_t_map[location][prev_time_slot[location]] <= fill_time) {
-      prev_time_slot[location]++;
-      assert(prev_time_slot[location] > 0);
+   // last time slot at or before fill_time, that has a slot after it
+   const std::vector<double>& times = d_t_map[location];
+   const int ntimes = static_cast<int>(times.size());
+   int ptime_slot = 0;
+   while (ptime_slot + 2 < ntimes && times[ptime_slot + 1] <= fill_time) {
+      ptime_slot++;
    }
-   prev_time_slot[location]--;
-   assert(prev_time_slot[location] >= 0);
+   const int ntime_slot = ptime_slot + 1;
 
-   next_time_slot[location] = prev_time_slot[location] + 1;
-
-   // tbox::plog<<"d_t_map[location][next_time_slot[location]]="
-   //          <<d_t_map[location][next_time_slot[location]]<<endl;
-   // tbox::pout<<"fill_time="<<fill_time<<endl;
-   // tbox::pout<<"prev_time_slot="<<prev_time_slot[location]<<endl;
-   // tbox::pout<<"next_time_slot="<<next_time_slot[location]<<endl;
-   if (d_t_map[location][prev_time_slot[location]] > fill_time ||
-       d_t_map[location][next_time_slot[location]] < fill_time) {
-      tbox::plog << "fill_time = " << fill_time << std::endl;
-      tbox::plog << "previous_time = "
-                 << d_t_map[location][prev_time_slot[location]] << std::endl;
-      tbox::plog << "next_time = "
-                 << d_t_map[location][next_time_slot[location]] << std::endl;
-      TBOX_ERROR(d_object_name << ": May need larger search range for time "
-                                  "index"
-                               << std::endl);
+   if (ntimes < 2 || times[ptime_slot] > fill_time ||
+       times[ntime_slot] < fill_time) {
+      TBOX_ERROR(d_object_name << ": no time interval specified for time "
+                               << fill_time << std::endl);
    }
 
-   const int ntime_slot = next_time_slot[location];
-   const int ptime_slot = prev_time_slot[location];
-   TBOX_ASSERT(fill_time <= d_t_map[location][ntime_slot]);
-   TBOX_ASSERT(fill_time >= d_t_map[location][ptime_slot]);
-
    const double dtinv =
        1. / (d_t_map[location][ntime_slot] - d_t_map[location][ptime_slot]);
    const double wl = dtinv * (fill_time - d_t_map[location][ptime_slot]);
@@ -252,6 +225,7 @@ TimeLocationIndexRobinBcCoefs& TimeLocationIndexRobinBcCoefs::operator=(
    for (int i = 0; i < 2 * d_dim.getValue(); ++i) {
       d_a_map[i] = r.d_a_map[i];
       d_b_map[i] = r.d_b_map[i];
+      d_t_map[i] = r.d_t_map[i];
       d_g_map[i] = r.d_g_map[i];
    }
    return *this;
-- 
2.43.0


From 497f7e582e683ab1db989be0c45217284aef5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 45/85] fix: rescale the temperatures given at boundaries in
 the time integrator

---
 source/QuatIntegrator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 402ff51..222d1de 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -1347,7 +1347,9 @@ void QuatIntegrator::initializeCoarseRefineOperators(
                                       d_boundary_cond_db, phase_id,
                                       d_eta_scratch_id, d_quat_scratch_id,
                                       d_conc_scratch_id,
-                                      d_temperature_scratch_id, factor);
+                                      d_temperature_scratch_id,
+                                      d_model_parameters.nghosts_required(),
+                                      factor);
    }
 }
 
-- 
2.43.0


From 45d681912761f4500bba8678e736884c1833814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:31 +0000
Subject: [PATCH 46/85] fix: weight the derivative of the orientation diffusion
 by the mobility in the preconditioner, not by its square root

---
 source/QuatFACOps.cc | 4 +++-
 source/QuatFACOps.h  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/QuatFACOps.cc b/source/QuatFACOps.cc
index c50cf61..e1c4c40 100644
--- a/source/QuatFACOps.cc
+++ b/source/QuatFACOps.cc
@@ -86,6 +86,7 @@ QuatFACOps::QuatFACOps(const int ql,
       d_solver(NULL),
       d_hopscell(),
       d_gamma(tbox::MathUtilities<double>::getSignalingNaN()),
+      d_mobility_id(-1),
       d_rotation_index_id(-1)
 {
    // Since one can't initialize arrays in the initializer list, we do it here
@@ -740,6 +741,7 @@ void QuatFACOps::setOperatorCoefficients(const double gamma,
                                          const int grad_q_id, const int q_id)
 {
    d_gamma = gamma;
+   d_mobility_id = mobility_id;
 
    // Check for non-positive mobility
    double mobility_min = d_hopscell->min(mobility_id);
@@ -1950,7 +1952,7 @@ void QuatFACOps::multiplyDQuatDPhiBlock(const int phase_id, const int out_id)
                              d_face_coef_scratch_id);
 
    for (int ln = d_ln_max; ln >= d_ln_min; ln--) {
-      accumulateOperatorOnLevel(d_sqrt_m_id, d_face_coef_scratch_id,
+      accumulateOperatorOnLevel(d_mobility_id, d_face_coef_scratch_id,
                                 d_q_local_id, -1, out_id, ln, false, false);
    }
 }
diff --git a/source/QuatFACOps.h b/source/QuatFACOps.h
index 5193ddd..d855eb4 100644
--- a/source/QuatFACOps.h
+++ b/source/QuatFACOps.h
@@ -918,6 +918,11 @@ class QuatFACOps : public SAMRAI::solv::FACOperatorStrategy
    double d_gamma;
 
    int d_sqrt_m_id;
+
+   /*!
+    * @brief Index of the mobility passed to setOperatorCoefficients().
+    */
+   int d_mobility_id;
    int d_m_deriv_id;
 
    int GetNumCellFacesInBox(const int *lower, const int *upper,
-- 
2.43.0


From a3f2b7bf53e9cb9040c905d34b70b2f76f6c6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:56 +0000
Subject: [PATCH 47/85] fix: fill all the ghost layers of cell data at physical
 boundaries

---
 source/CartesianRobinBcHelperWithDepth.cc | 39 +++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/source/CartesianRobinBcHelperWithDepth.cc b/source/CartesianRobinBcHelperWithDepth.cc
index a7151b2..1894a04 100644
--- a/source/CartesianRobinBcHelperWithDepth.cc
+++ b/source/CartesianRobinBcHelperWithDepth.cc
@@ -7,6 +7,8 @@
 #include "SAMRAI/hier/Index.h"
 #include "SAMRAI/hier/VariableDatabase.h"
 #include "SAMRAI/math/PatchCellDataOpsReal.h"
+#include "SAMRAI/pdat/CellGeometry.h"
+#include "SAMRAI/pdat/CellIterator.h"
 #include "SAMRAI/pdat/CellVariable.h"
 #include "SAMRAI/tbox/Array.h"
 #include "SAMRAI/tbox/MathUtilities.h"
@@ -453,6 +455,43 @@ void CartesianRobinBcHelperWithDepth::setBoundaryValuesInCells(
                                               << "setBoundaryValuesInCells");
                }
             }
+
+         /*
+          * Stencils wider than one cell read the ghost layers further out as
+          * well: there, the same condition holds between cells at the same
+          * distance from the boundary.
+          */
+         const bool upper_side = (location_index % 2 == 1);
+         for (int m = 1; m < gcw_to_fill(normal_dir); m++) {
+            const double dist = (2 * m + 1) * h[normal_dir];
+            const hier::Box& bbox(boundary_box.getBox());
+            pdat::CellIterator iend(pdat::CellGeometry::end(bbox));
+            for (pdat::CellIterator ci(pdat::CellGeometry::begin(bbox));
+                 ci != iend; ++ci) {
+               hier::Index face(*ci);
+               hier::Index ghost(*ci);
+               hier::Index inside(*ci);
+               if (upper_side) {
+                  ghost(normal_dir) += m;
+                  inside(normal_dir) -= m + 1;
+               } else {
+                  face(normal_dir) += 1;
+                  ghost(normal_dir) -= m;
+                  inside(normal_dir) += m + 1;
+               }
+               if (!ghost_box.contains(inside)) continue;
+               const double a = (*acoef_data)(face, 0);
+               const double b = (*bcoef_data)(face, 0);
+               const double g = homogeneous_bc ? 0. : (*gcoef_data)(face, 0);
+               const pdat::CellIndex ighost(ghost);
+               const pdat::CellIndex iinside(inside);
+               for (int depth = 0; depth < data.getDepth(); depth++) {
+                  data(ighost, depth) =
+                      (g * dist + data(iinside, depth) * (b - 0.5 * a * dist)) /
+                      (b + 0.5 * a * dist);
+               }
+            }
+         }
       }
 
       /*
-- 
2.43.0


From 04fc2ed11e5327be47b0eb29b0b1b5d71fb510fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 48/85] fix: keep the physical boundary values of the
 orientation when its rate is computed from plain differences

---
 source/QuatFACOps.cc | 9 ++++++---
 source/QuatFACOps.h  | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/QuatFACOps.cc b/source/QuatFACOps.cc
index e1c4c40..f297b48 100644
--- a/source/QuatFACOps.cc
+++ b/source/QuatFACOps.cc
@@ -1882,9 +1882,11 @@ void QuatFACOps::evaluateRHS(
                                                 grad_q_copy_id,
                                                 d_face_coef_scratch_id);
 
+   // The ghost values of q are those that the caller filled with the physical
+   // boundary conditions (those of d_bc_helper are homogeneous)
    for (int ln = d_ln_max; ln >= d_ln_min; ln--) {
       accumulateOperatorOnLevel(mobility_id, d_face_coef_scratch_id, q_id,
-                                gq_id, rhs_id, ln, true, false);
+                                gq_id, rhs_id, ln, true, false, true);
    }
 
    t_compute_rhs->stop();
@@ -1962,7 +1964,8 @@ void QuatFACOps::accumulateOperatorOnLevel(const int mobility_id,
                                            const int face_coef_id,
                                            const int q_id, const int grad_q_id,
                                            int rhs_q_id, int ln, bool project,
-                                           bool error_equation_indicator)
+                                           bool error_equation_indicator,
+                                           const bool ghosts_filled)
 {
    checkFluxPatchDataIndex();
    std::shared_ptr<hier::PatchLevel> level = d_hierarchy->getPatchLevel(ln);
@@ -1999,7 +2002,7 @@ void QuatFACOps::accumulateOperatorOnLevel(const int mobility_id,
     */
 
    /* S1. Fill ghost data for quaternions (component 0). */
-   if (grad_q_id == -1) {
+   if (grad_q_id == -1 && !ghosts_filled) {
       if (ln > d_ln_min) {
          /* Fill from current, next coarser level and physical boundary */
          xeqScheduleGhostFill(q_id, ln);
diff --git a/source/QuatFACOps.h b/source/QuatFACOps.h
index d855eb4..758dbca 100644
--- a/source/QuatFACOps.h
+++ b/source/QuatFACOps.h
@@ -347,7 +347,8 @@ class QuatFACOps : public SAMRAI::solv::FACOperatorStrategy
    void accumulateOperatorOnLevel(const int mobility_id, const int face_coef_id,
                                   const int q_id, const int grad_q_id,
                                   int operator_q_id, int ln, bool project,
-                                  bool error_equation_indicator);
+                                  bool error_equation_indicator,
+                                  const bool ghosts_filled = false);
 
    void multiplyDQuatDPhiBlock(const int q_id, const int operator_q_id);
 
-- 
2.43.0


From 45b9bf783ce13b8b831e35560f36ed53e67e98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 49/85] fix: evaluate the diagnostics subdomain weights at cell
 centers

---
 source/QuatModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 9c72a30..cf8c13d 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -4824,7 +4824,7 @@ void QuatModel::computeVectorWeightsDiagnostics(
               ++i) {
             pdat::CellIndex cell = *i;
             for (int d = 0; d < NDIM; d++) {
-               double x = low[d] + cell(d) * dx[d];
+               double x = low[d] + (cell(d) + 0.5) * dx[d];
 
                if (x < dlow[d]) (*w)(cell) = 0.;
                if (x > dup[d]) (*w)(cell) = 0.;
-- 
2.43.0


From 95f7e9c267b0759079c1c4e1d7a870a0a7544ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 50/85] fix: do not write past the end of the strides of grain
 numbers

---
 source/Grains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 4b251ad..70f65f5 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -306,7 +306,7 @@ void Grains::findAndNumberGrains(
 
       int nn = NDIM * ln;
       level_stride[nn] = 1;
-      for (tbox::Dimension::dir_t dd = 0; dd < NDIM; dd++) {
+      for (tbox::Dimension::dir_t dd = 0; dd < NDIM - 1; dd++) {
          level_stride[nn + dd + 1] =
              level_stride[nn + dd] * bbox.numberCells(dd);
       }
-- 
2.43.0


From 63c45e3cef75e04fbb9eaa5cc45e786eab99ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 51/85] fix: number grains of different levels in ranges that
 do not overlap

---
 source/Grains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 70f65f5..f7d18d3 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -298,7 +298,7 @@ void Grains::findAndNumberGrains(
       bl.print();
 
       hier::Box bbox = bl.getBoundingBox();
-      int bbox_size = bl.size();
+      int bbox_size = bbox.size();
 
       if (ln < maxln) {
          level_offset[ln + 1] = level_offset[ln] + bbox_size;
-- 
2.43.0


From 4682b6cc98ee03a5cde615b0351bc045339e3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 52/85] fix: no grains, no first element of the list of their
 numbers

---
 source/Grains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index f7d18d3..7b4b01d 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -582,7 +582,7 @@ void Grains::findAndNumberGrains(
    int size_out = sumReduction(size_in);
    std::vector<int> grain_numbers(size_out, -1);
 
-   allGatherv(local_grain_numbers, size_in, &grain_numbers[0], size_out);
+   allGatherv(local_grain_numbers, size_in, grain_numbers.data(), size_out);
 
    std::set<int> grain_list;
    for (ii = 0; ii < size_out; ii++) {
-- 
2.43.0


From 4a1e06e24d51edf0f75b4328eca2afa80d503c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 53/85] fix: extend grain orientations until all patches are
 done

---
 source/Grains.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 7b4b01d..8a97a65 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -973,7 +973,7 @@ void Grains::extendGrainOrientation(
    // is one.
    int nn;
    for (nn = 0; nn < max_iteration_count; nn++) {
-      int one_still_unset = 1;
+      int one_still_unset = 0;
 
       for (int ln = 0; ln <= maxln; ln++) {
          std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(ln);
@@ -1006,8 +1006,6 @@ void Grains::extendGrainOrientation(
                 SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
                     patch->getPatchData(d_grain_quat_scr_id)));
 
-            one_still_unset = 0;
-
             pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
             for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox));
                  i != iend; ++i) {
-- 
2.43.0


From af46f76c42758d5feeb6328a857436202edb0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 54/85] fix: no grains outside of the domain when extending
 orientations

---
 source/Grains.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Grains.cc b/source/Grains.cc
index 8a97a65..10131c9 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -953,6 +953,14 @@ void Grains::extendGrainOrientation(
 
          flag->fillAll(0);
 
+         // ghosts outside of physical boundaries are not in any grain
+         // and not filled by the refine schedules
+         std::shared_ptr<pdat::CellData<int> > flag_scr(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<int>, hier::PatchData>(
+                 patch->getPatchData(d_grain_extend_scr_id)));
+
+         flag_scr->fillAll(0);
+
          pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
          for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox)); i != iend;
               ++i) {
-- 
2.43.0


From abce2a61ef44a62908c437358582388a4989fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 55/85] fix: write the restart file at the start when the
 restart interval asks for it, not the regrid interval

---
 source/PFModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/PFModel.cc b/source/PFModel.cc
index 7469bd7..f86eac8 100644
--- a/source/PFModel.cc
+++ b/source/PFModel.cc
@@ -450,7 +450,7 @@ void PFModel::Run(void)
       tbox::pout << "cycle # " << d_cycle << " : t = " << d_time << std::endl;
    }
 
-   if (d_regrid_interval->includeInitial(d_time)) {
+   if (d_restart_interval->includeInitial(d_time)) {
       writeRestartFile();
    }
 
-- 
2.43.0


From 1cdfc5dd7f1a83f9fddf7f479fa44385471fe528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 56/85] fix: initialize d_grand_potential

---
 source/QuatModelParameters.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index 137e441..daeb846 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -127,6 +127,7 @@ QuatModelParameters::QuatModelParameters() : d_moving_frame_velocity(def_val)
    d_with_antitrapping = false;
    d_with_bias_well = false;
    d_with_rescaled_temperature = false;
+   d_grand_potential = false;
 
    d_partition_coeff = "";
    d_phase_concentration_model = "";
-- 
2.43.0


From 0cd091ba89205a2add37590c36da388aca9c120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 57/85] fix: allocate the energy output of Visit dumps for
 models without orientation too

---
 source/QuatModel.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index cf8c13d..9585953 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -3069,11 +3069,6 @@ void QuatModel::AllocateQuatLocalPatchData(
          }
       }
    }
-
-   if (d_model_parameters.with_visit_energy_output()) {
-      AllocateAndZeroData<pdat::CellData<double> >(d_energy_diag_id, level,
-                                                   time, zero_data);
-   }
 }
 //=======================================================================
 // Some data may already have been initialized with restart data, so we
@@ -3291,6 +3286,11 @@ void QuatModel::AllocateLocalPatchData(
       AllocateAndZeroData<pdat::CellData<double> >(d_f_b_id, level, time,
                                                    zero_data);
    }
+
+   if (d_model_parameters.with_visit_energy_output()) {
+      AllocateAndZeroData<pdat::CellData<double> >(d_energy_diag_id, level,
+                                                   time, zero_data);
+   }
 }
 //-----------------------------------------------------------------------
 
-- 
2.43.0


From 976b2034398190c3c8433192c8d91b6707d27609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 58/85] fix: set the prescribed temperature of the starting
 time when a run does not start at time 0

---
 source/GaussianTemperatureStrategy.cc | 39 +++++++++++----------------
 source/QuatModel.cc                   |  2 +-
 source/ScalarTemperatureStrategy.cc   | 11 +++-----
 3 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/source/GaussianTemperatureStrategy.cc b/source/GaussianTemperatureStrategy.cc
index a904269..74df768 100644
--- a/source/GaussianTemperatureStrategy.cc
+++ b/source/GaussianTemperatureStrategy.cc
@@ -129,36 +129,29 @@ void GaussianTemperatureStrategy::setCurrentTemperature(
       }
    }
 
-   bool moving = false;
-   for (short d = 0; d < NDIM; d++)
-      moving = moving || d_velocity[d] != 0.;
+   double tgaussian = getCurrentTemperature(time);
 
-   if (d_dtemperaturedt != 0.0 || moving || time == 0.0) {
+   int maxln = patch_hierarchy->getFinestLevelNumber();
 
-      double tgaussian = getCurrentTemperature(time);
+   for (int ln = 0; ln <= maxln; ln++) {
 
-      int maxln = patch_hierarchy->getFinestLevelNumber();
+      std::shared_ptr<hier::PatchLevel> level =
+          patch_hierarchy->getPatchLevel(ln);
 
-      for (int ln = 0; ln <= maxln; ln++) {
+      for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
+           p++) {
 
-         std::shared_ptr<hier::PatchLevel> level =
-             patch_hierarchy->getPatchLevel(ln);
+         std::shared_ptr<hier::Patch> patch = *p;
 
-         for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
-              p++) {
+         std::shared_ptr<pdat::CellData<double> > t_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_id)));
+         setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
 
-            std::shared_ptr<hier::Patch> patch = *p;
-
-            std::shared_ptr<pdat::CellData<double> > t_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_id)));
-            setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
-
-            std::shared_ptr<pdat::CellData<double> > ts_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_scratch_id)));
-            setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
-         }
+         std::shared_ptr<pdat::CellData<double> > ts_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_scratch_id)));
+         setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
       }
    }
 
diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 9585953..893a4e5 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -676,7 +676,7 @@ void QuatModel::Initialize(std::shared_ptr<tbox::MemoryDatabase>& input_db,
    if (d_model_parameters.isTemperatureUniform() ||
        d_model_parameters.isTemperatureGaussian() ||
        d_model_parameters.isTemperatureGradient()) {
-      d_temperature_strategy->setCurrentTemperature(d_patch_hierarchy, 0.0);
+      d_temperature_strategy->setCurrentTemperature(d_patch_hierarchy, d_time);
    }
 
    d_quat_grad_strategy = new SimpleQuatGradStrategy(this);
diff --git a/source/ScalarTemperatureStrategy.cc b/source/ScalarTemperatureStrategy.cc
index 5d62a94..d8dc831 100644
--- a/source/ScalarTemperatureStrategy.cc
+++ b/source/ScalarTemperatureStrategy.cc
@@ -79,12 +79,9 @@ void ScalarTemperatureStrategy::setCurrentTemperature(
    assert(d_temperature_id >= 0);
    assert(d_temperature_scratch_id >= 0);
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   double t = getCurrentTemperature(time);
 
-      double t = getCurrentTemperature(time);
-
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_temperature_id, t);
-      mathops.setToScalar(d_temperature_scratch_id, t, false);
-   }
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_temperature_id, t);
+   mathops.setToScalar(d_temperature_scratch_id, t, false);
 }
-- 
2.43.0


From 5fbe11e0df07bd6fa732c9ed24afb737bee218fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 59/85] fix: initial data tools honour --periodic

---
 utils/make_multi_spheres.py | 4 ++--
 utils/make_nuclei.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/make_multi_spheres.py b/utils/make_multi_spheres.py
index 7165a59..bf3bc08 100644
--- a/utils/make_multi_spheres.py
+++ b/utils/make_multi_spheres.py
@@ -45,7 +45,7 @@ parser.add_option( "--concentration-out", type="string",
 parser.add_option( "-w", "--width", type="float",
                    help="interface width", default=0.0 )
 parser.add_option("--periodic", type="string", # something like "1,0,1" for periodic in x and z
-                  default="1,1,1",
+                  default="0,0,0",
                   help="specify which dimensions are periodic") 
 
 (options, args) = parser.parse_args()
@@ -94,7 +94,7 @@ print(sphase)
 width = 0.
 if ( options.width ) : width = options.width
 
-periodic = options.periodic.split( ',')
+periodic = [int(i) for i in options.periodic.split( ',')]
 
 #-----------------------------------------------------------------------
 if ( not options.concentration_out is None ) :
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 847151b..4d4b4c0 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -76,7 +76,7 @@ parser.add_option( "--double", action="store_true", dest="double_precision", def
 parser.add_option( "--center0", type="string", # something like "12.,14.,23"
                   help="position of center 0")
 parser.add_option("--periodic", type="string", # something like "1,0,1" for periodic in x and z
-                  default="1,1,1",
+                  default="0,0,0",
                   help="specify which dimensions are periodic") 
 parser.add_option("--quat0", type="string",
                   help="specify value of quaternion in grain 0")
@@ -135,7 +135,7 @@ if( not(quat_outside is None) ):
   qout = map( float, options.quat_out.split( ',' ) )
   print ("qout={}".format(qout))
 
-periodic = options.periodic.split( ',')
+periodic = [int(i) for i in options.periodic.split( ',')]
 
 #-----------------------------------------------------------------------
 nspecies=0
-- 
2.43.0


From 058a5f6d6a7a08de419788a16f658185c17b727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 60/85] fix: initial data tools keep every species when
 compositions are equal

---
 utils/make_multi_spheres.py | 2 +-
 utils/make_nuclei.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/make_multi_spheres.py b/utils/make_multi_spheres.py
index bf3bc08..510a4a2 100644
--- a/utils/make_multi_spheres.py
+++ b/utils/make_multi_spheres.py
@@ -111,7 +111,7 @@ if ( not options.concentration_out is None ) :
     concB = [float(i) for i in tmp]
     print(concB)
 
-  nspecies = len(set(concA))
+  nspecies = len(concA)
 else:
   nspecies = 0
 
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 4d4b4c0..c97795d 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -142,7 +142,7 @@ nspecies=0
 if ( not ( nomconc is None ) ):
   tmp = options.nomconc.split( ',' )
   c = [float(i) for i in tmp]
-  nspecies=len(set(c))
+  nspecies=len(c)
   print ("Nominal composition={}".format(c))
 if ( not ( conc_inside is None ) ):
   tmp = options.concentration_in.split( ',' )
-- 
2.43.0


From b7e8c32be9611399c9fd55b1668d0447dd9dcf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 61/85] fix: make_nuclei.py computes compositions from the
 nominal one for every option

---
 utils/make_nuclei.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index c97795d..38802d3 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -124,7 +124,7 @@ phase_outside = options.phase_out
 nomconc       = options.nomconc
 conc_inside   = options.concentration_in
 conc_outside  = options.concentration_out
-if conc_inside is None :
+if ( conc_inside is None and conc_outside is None ) :
   conc_inside = nomconc
 
 temperature_inside   = options.temperature_in
@@ -145,7 +145,7 @@ if ( not ( nomconc is None ) ):
   nspecies=len(c)
   print ("Nominal composition={}".format(c))
 if ( not ( conc_inside is None ) ):
-  tmp = options.concentration_in.split( ',' )
+  tmp = conc_inside.split( ',' )
   ci = [float(i) for i in tmp]
   if nspecies==0:
     nspecies=len(ci)
@@ -721,11 +721,9 @@ if nspecies>0:
       print ("Calculated composition outside={}".format(co))
   if ( not ( options.concentration_out is None ) ):
     if ( not ( nomconc is None ) and vs>0 ):
-      conc_inside = (c[0]*vol-conc_outside*vl)/vs
-      print ("Calculated composition inside={}".format(conc_inside))
-  if( ( conc_outside is None ) and ( conc_inside is None ) ):
-    conc_inside = nomconc
-    conc_outside = nomconc
+      for s in range(nspecies):
+        ci[s] = (c[s]*vol-co[s]*vl)/vs
+      print ("Calculated composition inside={}".format(ci))
 
   if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
     for s in range(nspecies):
-- 
2.43.0


From 93639377ee9598a946ae0af58c9b7ad4a1247f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 62/85] fix: make_nuclei.py: overlapping interfaces of grains,
 and nominal composition with them

---
 utils/make_nuclei.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 38802d3..6b66ffd 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -648,17 +648,21 @@ for g in range(n_spheres):
             d = N.sqrt(distance_sq) - N.sqrt(r_sq)
             if( width>0. ):
               if( d<8.*width ):
-                phase[k,j,i] = phase_inside*0.5*(1.+N.tanh(-1.*d/(2.*width)))
-                vs=vs+phase[k,j,i]
+                phi = phase_inside*0.5*(1.+N.tanh(-1.*d/(2.*width)))
                 if( options.three ):
+                  phase[k,j,i] = phi
                   eta[k,j,i] = g%2
+                else:
+                  #tails of several grains may overlap
+                  phase[k,j,i] = max( phase[k,j,i], phi )
             else:
               if( d<0. ):
                 phase[k,j,i] = phase_inside
-                vs=vs+phase[k,j,i]
                 if( options.three ):
                   eta[k,j,i] = g%2
 
+#volume solid consistent with composition mixing below
+vs=float(N.sum(phase,dtype=N.float64))
 vl=vol-vs
 
 #fill quat values
-- 
2.43.0


From ef2cafb0bf35f3c4af92742ad4a894a2af082e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 63/85] fix: make_nuclei.py: orientation outside, and of close
 grains

---
 utils/make_nuclei.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 6b66ffd..93c9d07 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -132,7 +132,7 @@ temperature_outside  = options.temperature_out
 
 quat_outside  = options.quat_out
 if( not(quat_outside is None) ):
-  qout = map( float, options.quat_out.split( ',' ) )
+  qout = [float(i) for i in options.quat_out.split( ',' )]
   print ("qout={}".format(qout))
 
 periodic = [int(i) for i in options.periodic.split( ',')]
@@ -603,6 +603,12 @@ else:
     #imposeMinDistance(cx,cy,cz,nx,ny,nz,2.4*radius)
     imposeMinDistance(cx,cy,cz,nx,ny,nz,mind)
 
+#cells within half the smallest distance between two centers
+#belong to that center
+for g in range(n_spheres):
+  for g2 in range(g):
+    halfmind2=min(halfmind2,0.25*distance2(cx[g],cy[g],cz[g],cx[g2],cy[g2],cz[g2]))
+
 #-----------------------------------------------------------------------
 # Fill data arrays
 print ("Fill Phase values")
@@ -686,22 +692,17 @@ if QLEN>0:
       for k in range( nz ) :
         z = k + 0.5
         d2min=distance2(x,y,z,cx[gmin],cy[gmin],cz[gmin])
-        if( not(quat_outside is None)):
-          if( d2min<radius*radius ):
-            qi=quat_inside[gmin]
-          else:
-            qi=[]
-            for m in range(QLEN):
-              qi.append(qout[m])
+        if d2min>halfmind2:
+          for g in range(n_spheres):
+            distance_sq = distance2(x,y,z,cx[g],cy[g],cz[g])
+            if distance_sq<d2min:
+              d2min=distance_sq
+              gmin=g
+              if d2min<halfmind2:
+                break
+        if( not(quat_outside is None) and not(d2min<r[gmin]**2) ):
+          qi=qout
         else:
-          if d2min>halfmind2:
-            for g in range(n_spheres):
-              distance_sq = distance2(x,y,z,cx[g],cy[g],cz[g])
-              if distance_sq<d2min:
-                d2min=distance_sq
-                gmin=g
-                if d2min<halfmind2:
-                  break
           qi=quat_inside[gmin]
 
         qr = None
-- 
2.43.0


From c74ce19b6296827a74a746bf13a8e9f3ccc69ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 64/85] fix: make_sphere.py reads quaternions given as options

---
 utils/make_sphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index a5f9a6b..49ca261 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -183,7 +183,7 @@ if ( not options.quat_in is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in.split( ',' ) )
+  q = list(map( float, options.quat_in.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -207,7 +207,7 @@ if ( not options.quat_in_two is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in_two.split(',') )
+  q = list(map( float, options.quat_in_two.split(',') ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -231,7 +231,7 @@ if ( not options.quat_out is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, string.split( options.quat_out, ',' ) )
+  q = list(map( float, options.quat_out.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_outside = Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] )
   else :
-- 
2.43.0


From 0a5a9706f26f72057efa00f0d2b373943becb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 65/85] fix: make_sphere.py: two spheres

---
 utils/make_sphere.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index 49ca261..6b2acd0 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -404,21 +404,6 @@ phase = N.ones( (nz,ny,nx), N.float64 )
 quat = N.zeros( (QLEN,nz,ny,nx), N.float64 )
 conc = N.ones( (nz,ny,nx), N.float64 )
 
-if ( n_spheres == "two" ) :
-  r_sq_two = radius_two**2
-
-  cx = nx / 2
-  cy = ny / 2
-  cz = nz / 2
-
-  cx_one = 3 * cx / 4
-  cy_one = 3 * cy / 4
-  cz_one = cz
-
-  cx_two = 5 * cx / 4
-  cy_two = 5 * cy / 4
-  cz_two = cz
-
 #-----------------------------------------------------------------------
 # Variables and functions for symmetry rotations
 
-- 
2.43.0


From 28e10e460e4fcb1e7960a1b67fc80d8f2fbe7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 66/85] fix: make_sphere.py: orientation of the second sphere
 from an angle

---
 utils/make_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index 6b2acd0..59871fe 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -336,10 +336,10 @@ if ( use_simple_rotation ) :
 
   if ( n_spheres == "two" ) :
     if ( QLEN == 1 ) :
-      angle_inside.append( -angle / 2.0 )
+      angle_inside.append( -angle * math.pi / 180.0 )
     else :
       q0 = math.cos( ( math.pi / 180.0 ) * ( -angle / 2.0 ) )
-      q1 = math.sqrt( 1 - q0 * q0 )
+      q1 = -math.sqrt( 1 - q0 * q0 )
       if ( QLEN == 4 ) :
         quat_inside.append( Q.makeNormalizedQuat( q0, q1, 0, 0 ) )
       else :
-- 
2.43.0


From 2a810cfd99d9b2b0d10100e55987f1942cf2285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 67/85] fix: make_bilayer.py computes compositions from the
 nominal one for every option

---
 utils/make_bilayer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index dbb0b1b..e0287d7 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -514,11 +514,12 @@ if ( not ( conc_inside is None ) ):
     print("Calculated composition outside={}".format(co))
 if ( not ( options.concentration_out is None ) ):
   if ( not ( nomconc is None ) and vs>0 ):
-    conc_inside = (c[0]*vol-conc_outside*vl)/vs
-    print("Calculated composition inside={}".format(conc_inside))
-if( ( conc_outside is None ) and ( conc_inside is None ) ):
-  conc_inside = nomconc
-  conc_outside = nomconc
+    for s in range(nspecies):
+      ci[s] = (c[s]*vol-co[s]*vl)/vs
+    print("Calculated composition inside={}".format(ci))
+if( ( conc_outside is None ) and ( conc_inside is None ) and not ( nomconc is None ) ):
+  ci = list(c)
+  co = list(c)
 
 if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
   for s in range(nspecies):
-- 
2.43.0


From 9bbf5b11dd52e3096df2bcf243148d208882c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 68/85] fix: make_bilayer.py: two grains along z

---
 utils/make_bilayer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index e0287d7..b67d22e 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -447,6 +447,9 @@ if n_solid_layers == "two" :
   cx_two = 3 * cx / 2
   cy_two = 3 * cy / 2
   cz_two = cz
+  if ( direction == 2 ) :
+    cz_one = cz / 2
+    cz_two = 3 * cz / 2
 
 #-----------------------------------------------------------------------
 # Variables and functions for symmetry rotations
-- 
2.43.0


From e10ebf269209a6e92778f081a955fb7950e8710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 69/85] fix: make_bilayer.py: interface of the second grain,
 and nominal composition

---
 utils/make_bilayer.py | 59 ++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index b67d22e..c9371bc 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -491,25 +491,36 @@ def rotateByOctant( x, y, z, cx, cy, cz ) :
   return qr
 
 #-----------------------------------------------------------------------
-# Fill data arrays
-vol=nx*ny*nz
-if ( direction == 0 ) :
-  vs=2*radius*ny*nz
-elif ( direction == 1 ) :
-  vs=2*radius*nx*nz
-elif ( direction == 2 ) :
-  vs=2*radius*ny*nx
+# Solid fraction at position s along direction of bilayer
+if( delta>0. ):
+  invdelta = 1./delta
 
-if ( n_solid_layers == "two" ) :
-  vs=2.*vs
+def grainFraction(d) :
+  if( delta>0. ):
+    return 0.5*(1.+math.tanh(-0.5*d*invdelta))
+  if( d>0. ):
+    return 0. #outside
+  return 1. #inside
 
-vs=min(vs,vol)
+center_one = (cx_one,cy_one,cz_one)[direction]
+if n_solid_layers == "two" :
+  center_two = (cx_two,cy_two,cz_two)[direction]
+
+def solidFraction(s) :
+  phi = grainFraction( abs(s-center_one)-radius )
+  if n_solid_layers == "two" :
+    phi = max( phi, grainFraction( abs(s-center_two)-radius_two ) )
+  return phi
+
+#-----------------------------------------------------------------------
+# Fill data arrays
+vol=nx*ny*nz
+vs=sum( [solidFraction( i+0.5 ) for i in range( width )] )*vol/width
 vl=vol-vs
 print("Volume           = {}".format(vol))
 print("Volume of solid  = {}".format(vs))
 print("Volume of liquid = {}".format(vl))
 
-  
 if ( not ( conc_inside is None ) ):
   if ( not ( nomconc is None ) and vl>0 ):
     for s in range(nspecies):
@@ -528,9 +539,6 @@ if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
   for s in range(nspecies):
     print("Calculated nominal Composition={}".format((vl*co[s]+vs*ci[s])/vol))
 
-if( delta>0. ):
-  invdelta = 1./delta
-
 if ( QLEN > 1 ):
   print("Quat inside grain 1 = {}".format(quat_inside))
   if ( n_solid_layers == "two" ) :
@@ -552,13 +560,7 @@ for k in range( nz ) :
       distance_one = math.sqrt(distance_sq1)
 
       d1 = distance_one - radius
-      if( delta>0. ):
-        phi = 0.5*(1.+math.tanh(-0.5*d1*invdelta))
-      else :
-        if( d1>0. ):
-          phi=0.; #outside
-        else:
-          phi=1.; #inside
+      phi = solidFraction( (x,y,z)[direction] )
 
       if ( not temperature0 is None ) :
         temperature[k,j,i] = temperature0
@@ -588,19 +590,6 @@ for k in range( nz ) :
         distance_two = math.sqrt(distance_sq2)
         d2 = distance_two - radius_two
 
-        if( delta>0. ):
-          phi = 0.5*(1.+math.tanh(-0.5*d2*invdelta))
-        else :
-          if( d2>0. ):
-            phi=0.;
-          else:
-            phi=1.;
-
-        if ( d2<delta ) : #inside grain 2
-          phase[k,j,i] = phi*phase_inside+(1.-phi)*phase_outside
-          for s in range(nspecies):
-            c[s] = phi*ci[s]+(1.-phi)*co[s]
-
         #set q based on closest grain center
         if ( distance_two<distance_one ) :
           if ( QLEN == 1 ) :
-- 
2.43.0


From 3c61b372c8c1b6a0d3112285dee207e0c3f3578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 70/85] fix: conjugate of a symmetry rotation in quat.py

---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index d1c063c..43707e7 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -322,7 +322,7 @@ iq_qr4_conj[36] = 40
 iq_qr4_conj[37] = 44
 iq_qr4_conj[38] = 45
 iq_qr4_conj[39] = 46
-iq_qr4_conj[40] = 38
+iq_qr4_conj[40] = 36
 iq_qr4_conj[41] = 35
 iq_qr4_conj[42] = 34
 iq_qr4_conj[43] = 32
-- 
2.43.0


From 3fa811ecb509fde6a244b6851a94f3fc51856d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 71/85] fix: multiplyQuat, conjugateQuat and quatSymm1 with
 default arguments

---
 utils/quat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index 43707e7..0186c61 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -75,7 +75,7 @@ def subtractQuat( q1, q2, q ) :
 
 #=======================================================================
 
-def multiplyQuat( q1, q2, q=0 ) :
+def multiplyQuat( q1, q2, q=() ) :
   assert( len( q1 ) == len( q2 ) )
   qlen = len( q1 )
   assert( qlen == 2 or qlen == 4 )
@@ -130,13 +130,13 @@ def rotateQuat( q, q_rotation ) :
 
 #=======================================================================
 
-def conjugateQuat( q1, q2=0 ) :
+def conjugateQuat( q1, q2=None ) :
   qlen = len( q1 )
 
   ret_q = 0
-  if ( q2 == 0 ) :
+  if ( q2 is None ) :
     ret_q = 1
-    q2 = duplicateQuat( q )
+    q2 = duplicateQuat( q1 )
   else :
     assert( len( q2 ) == qlen )
     
@@ -484,7 +484,7 @@ def quatSymm1( q1, q2, iq=0 ) :
 
   # Test qr(:,iq) first
   diff, q2_prime = quatDiff1( q1, q2, qr1[iq] )
-  if ( diff <= CRIT_DIFF ) : return
+  if ( diff <= CRIT_DIFF ) : return q2_prime
 
   min_diff = diff
   min_iq = iq
-- 
2.43.0


From 9fb5d5925d8decbc7eac26f2cc133028578f1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 72/85] fix: make_initial_grains_on_boundary.py with more than
 one grain

---
 utils/make_initial_grains_on_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index dfd43f0..fa2cbb0 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -116,7 +116,7 @@ if conc_inside is None :
 # generate quaternions corresponding to random orientations
 random.seed( 112345 )
 quat_inside=[]
-nangles = 20. #actually means fewer different angles if symmetry is on
+nangles = 20 #actually means fewer different angles if symmetry is on
 h = 2.*math.pi/nangles
 
 #-----------------------------------------------------------------------
-- 
2.43.0


From f06bf697fc17475b969b28cfa987c836fa7fb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 73/85] fix: make_initial_grains_on_boundary.py smooths with
 the neighbours of a cell

---
 utils/make_initial_grains_on_boundary.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index fa2cbb0..95b1158 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -183,12 +183,12 @@ def smoothQuat(quat,px,py,pz):
     for j in range(iy,ny):
       for k in range(iz,nz):
         quat_new[k,j,i] = 0.25*quat[k,j,i] \
-                        + 0.125*(quat[(k-1)%nz,j,i]) \
-                        + 0.125*(quat[(k+1)%nz,j,i]) \
-                        + 0.125*(quat[k,(j-1)%ny,i]) \
-                        + 0.125*(quat[k,(j+1)%ny,i]) \
-                        + 0.125*(quat[k,j,(i-1)%nx]) \
-                        + 0.125*(quat[k,j,(i+1)%nx])
+                        + 0.125*(quat[(k-1)%nn[2],j,i]) \
+                        + 0.125*(quat[(k+1)%nn[2],j,i]) \
+                        + 0.125*(quat[k,(j-1)%nn[1],i]) \
+                        + 0.125*(quat[k,(j+1)%nn[1],i]) \
+                        + 0.125*(quat[k,j,(i-1)%nn[0]]) \
+                        + 0.125*(quat[k,j,(i+1)%nn[0]])
   quat[:,:,:]=quat_new[:,:,:]
 
 
-- 
2.43.0


From 826f5eb0936d59cb983d549cf948de4b85b3f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 74/85] fix: make_initial_grains_on_boundary.py: grains of a
 front along x

---
 utils/make_initial_grains_on_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index 95b1158..c667aad 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -309,7 +309,7 @@ if not quatin is None and ngrains==1:
 else:
   setRandomQinGrains()
 
-offset=0.5*fraction*nn[0]
+offset=0.5*fraction*nn[dir0]
 if QLEN>0:
   gmin=0
   print("Fill quaternion values...")
-- 
2.43.0


From a38df08524c410e5a7dd530caae3f63cc67b79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:56 +0000
Subject: [PATCH 75/85] fix: write every order parameter into the file of
 initial conditions

---
 source/FieldsWriter.cc | 53 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/source/FieldsWriter.cc b/source/FieldsWriter.cc
index 62d7a27..7e9a730 100644
--- a/source/FieldsWriter.cc
+++ b/source/FieldsWriter.cc
@@ -83,17 +83,16 @@ void FieldsWriter::writeInitialConditionsFile(
    const tbox::SAMRAI_MPI& mpi(tbox::SAMRAI_MPI::getSAMRAIWorld());
    const int npp = mpi.getSize();
 
+   // one variable for each order parameter
+   const int nphases = d_model_parameters.norderp();
+
    for (int pp = 0; pp < npp; pp++) {
 
       // tbox::plog << "pp=" << pp << std::endl;
       if (mpi.getRank() == pp) {
 
          NcFile* f;
-         NcVar* nc_phase;
-         if (d_model_parameters.with_three_phases())
-            nc_phase = new NcVar[3];
-         else
-            nc_phase = new NcVar[1];
+         NcVar* nc_phase = new NcVar[nphases];
 #ifdef HAVE_NETCDF3
          NcVar* nc_eta = nullptr;
          NcVar** nc_conc = new NcVar*[d_ncompositions];
@@ -173,14 +172,15 @@ void FieldsWriter::writeInitialConditionsFile(
             dims.push_back(nc_nz);
             dims.push_back(nc_ny);
             dims.push_back(nc_nx);
-            if (d_model_parameters.with_three_phases()) {
-               nc_phase[0] = f->addVar("phase0", ncFloat, dims);
-               nc_phase[1] = f->addVar("phase1", ncFloat, dims);
-               nc_phase[2] = f->addVar("phase2", ncFloat, dims);
-            } else
-               nc_phase[0] = f->addVar("phase", ncFloat, dims);
-            if (nc_phase[0].isNull()) {
-               TBOX_ERROR("Could add variable 'phase'" << std::endl);
+            for (int ii = 0; ii < nphases; ii++) {
+               std::ostringstream o;
+               o << "phase";
+               if (nphases > 1) o << ii;
+               nc_phase[ii] = f->addVar(o.str(), ncFloat, dims);
+               if (nc_phase[ii].isNull()) {
+                  TBOX_ERROR("Could not add variable " << o.str()
+                                                       << std::endl);
+               }
             }
             if (d_model_parameters.with_third_phase()) {
                nc_eta = f->addVar("eta", ncFloat, dims);
@@ -251,12 +251,12 @@ void FieldsWriter::writeInitialConditionsFile(
 #endif
 #ifdef HAVE_NETCDF4
             // clog<<"add variables from PE >0..."<<endl;
-            if (d_model_parameters.with_three_phases()) {
-               nc_phase[0] = f->getVar("phase0");
-               nc_phase[1] = f->getVar("phase1");
-               nc_phase[2] = f->getVar("phase2");
-            } else
-               nc_phase[0] = f->getVar("phase");
+            for (int ii = 0; ii < nphases; ii++) {
+               std::ostringstream o;
+               o << "phase";
+               if (nphases > 1) o << ii;
+               nc_phase[ii] = f->getVar(o.str());
+            }
 
             if (d_model_parameters.with_third_phase()) {
                nc_eta = f->getVar("eta");
@@ -321,8 +321,11 @@ void FieldsWriter::writeInitialConditionsFile(
 #endif
 
 #ifdef HAVE_NETCDF4
-         if (nc_phase[0].isNull()) {
-            TBOX_ERROR("Could not create variable 'phase'" << std::endl);
+         for (int ii = 0; ii < nphases; ii++) {
+            if (nc_phase[ii].isNull()) {
+               TBOX_ERROR("Could not create variable for phase "
+                          << ii << std::endl);
+            }
          }
 
          if (d_model_parameters.with_third_phase() && nc_eta.isNull()) {
@@ -396,11 +399,8 @@ void FieldsWriter::writeInitialConditionsFile(
             // std::cout<<"Write data into variable 'phase'"<<endl;
             // std::cout<<"nx="<<countp[0]<<", ny="<<countp[1]<<",
             // nz="<<countp[2]<<endl;
-            nc_phase[0].putVar(startp, countp, phase_data->getPointer(0));
-            if (d_model_parameters.with_three_phases()) {
-               nc_phase[1].putVar(startp, countp, phase_data->getPointer(1));
-               nc_phase[2].putVar(startp, countp, phase_data->getPointer(2));
-            }
+            for (int ii = 0; ii < nphases; ii++)
+               nc_phase[ii].putVar(startp, countp, phase_data->getPointer(ii));
             // std::cout<<"Data written into variable 'phase'"<<endl;
 #endif
             if (d_model_parameters.with_third_phase()) {
@@ -477,6 +477,7 @@ void FieldsWriter::writeInitialConditionsFile(
 #ifdef HAVE_NETCDF4
          delete f;
 #endif
+         delete[] nc_phase;
          delete[] nc_qcomp;
          delete[] nc_conc;
       }
-- 
2.43.0


From 9951c2feb3161fad504eb070b9832a5b3260184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:56 +0000
Subject: [PATCH 76/85] fix: write the file of initial conditions of models
 without phase field, and eta

---
 source/FieldsWriter.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/source/FieldsWriter.cc b/source/FieldsWriter.cc
index 7e9a730..f8648a5 100644
--- a/source/FieldsWriter.cc
+++ b/source/FieldsWriter.cc
@@ -43,6 +43,7 @@ FieldsWriter::FieldsWriter(
       d_quat_scratch_id(quat_scratch_id),
       d_conc_id(conc_id),
       d_conc_scratch_id(conc_scratch_id),
+      d_eta_id(eta_id),
       d_eta_scratch_id(eta_scratch_id),
       d_ncompositions(ncompositions),
       d_qlen(qlen),
@@ -84,7 +85,8 @@ void FieldsWriter::writeInitialConditionsFile(
    const int npp = mpi.getSize();
 
    // one variable for each order parameter
-   const int nphases = d_model_parameters.norderp();
+   const int nphases =
+       d_model_parameters.with_phase() ? d_model_parameters.norderp() : 0;
 
    for (int pp = 0; pp < npp; pp++) {
 
@@ -365,10 +367,14 @@ void FieldsWriter::writeInitialConditionsFile(
               p != flattened_level->end(); ++p) {
             std::shared_ptr<hier::Patch> patch = *p;
 
-            std::shared_ptr<pdat::CellData<double> > phase_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_phase_id)));
-            assert(phase_data);
+            std::shared_ptr<pdat::CellData<double> > phase_data;
+            if (nphases > 0) {
+               phase_data =
+                   SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>,
+                                          hier::PatchData>(
+                       patch->getPatchData(d_phase_id));
+               assert(phase_data);
+            }
 
             const hier::Box& this_b = patch->getBox();
             int nx = this_b.numberCells(0);
@@ -543,10 +549,12 @@ std::shared_ptr<hier::PatchLevel> FieldsWriter::FlattenHierarchy(
        hier::VariableDatabase::getDatabase()->getPatchDescriptor()));
 
    // allocate data on newly created level
-   flattened_level->allocatePatchData(d_phase_id);
-   flattened_level->allocatePatchData(d_phase_scratch_id);
-   flattened_level->setTime(time, d_phase_id);
-   flattened_level->setTime(time, d_phase_scratch_id);
+   if (d_model_parameters.with_phase()) {
+      flattened_level->allocatePatchData(d_phase_id);
+      flattened_level->allocatePatchData(d_phase_scratch_id);
+      flattened_level->setTime(time, d_phase_id);
+      flattened_level->setTime(time, d_phase_scratch_id);
+   }
 
    if (d_model_parameters.with_third_phase()) {
       flattened_level->allocatePatchData(d_eta_id);
-- 
2.43.0


From 411c08f7813928f3bfdffb2bddaa98e4d14a7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:56 +0000
Subject: [PATCH 77/85] fix: write temperature into the file of initial
 conditions in units of the input

---
 source/FieldsWriter.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/FieldsWriter.cc b/source/FieldsWriter.cc
index f8648a5..86a89ee 100644
--- a/source/FieldsWriter.cc
+++ b/source/FieldsWriter.cc
@@ -436,7 +436,14 @@ void FieldsWriter::writeInitialConditionsFile(
 #endif
 #ifdef HAVE_NETCDF4
             // std::cout<<"Write data into variable 'temperature'"<<endl;
-            nc_temp.putVar(startp, countp, temp_data->getPointer());
+            // in units of input data, even if the run uses reduced units
+            std::vector<double> temp_values(temp_data->getPointer(),
+                                            temp_data->getPointer() +
+                                                nx * ny * nz);
+            if (d_model_parameters.with_rescaled_temperature())
+               for (auto& t : temp_values)
+                  t *= d_model_parameters.rescale_factorT();
+            nc_temp.putVar(startp, countp, temp_values.data());
 #endif
 
             if (d_model_parameters.with_orientation()) {
-- 
2.43.0


From f036436d250598fc893113a6044fbc88a1c5986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 78/85] fix: substituteInputParameter.py: parameters given more
 than once

---
 utils/substituteInputParameter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/substituteInputParameter.py b/utils/substituteInputParameter.py
index 117ccd4..09a8aac 100644
--- a/utils/substituteInputParameter.py
+++ b/utils/substituteInputParameter.py
@@ -8,7 +8,6 @@ lines = open(sys.argv[1],'r')
 
 parameter_name = sys.argv[2]
 parameter_val  = sys.argv[3]
-newline = " "
 
 # loop over lines of file
 for line in lines:
@@ -16,7 +15,7 @@ for line in lines:
   if len(words)>0:
     if words[0]==parameter_name:
       words[2]=parameter_val
-      newline = newline.join(words)
+      newline = " ".join(words)
       print("  {}".format(newline))
     else:
       print(line, end = '')
-- 
2.43.0


From efeac5e503ce7aeb6eae41d83ebf96d193108f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 79/85] fix: volfracvstime.py: do not look for the time of the
 first lines at the end of the file

---
 utils/volfracvstime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/volfracvstime.py b/utils/volfracvstime.py
index 4a4edee..3aa0562 100644
--- a/utils/volfracvstime.py
+++ b/utils/volfracvstime.py
@@ -26,7 +26,7 @@ for line in range(l): ## loop over lines of file
 
   if num_matches1 :
     #search for time in previous lines
-    for line2 in range(line-1,line-1000,-1):
+    for line2 in range(line-1,max(line-1000,-1),-1):
       num_matches2 = L[line2].count(search_string2)
       if num_matches2:
         w=L[line2].split()
-- 
2.43.0


From cc800713d3f46e0bc89c8d5ba30fd2366c95063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:42 +0000
Subject: [PATCH 80/85] fix: two-phase alloys with several order parameters
 have no phase B energy

---
 source/MultiOrderRHSStrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/MultiOrderRHSStrategy.cc b/source/MultiOrderRHSStrategy.cc
index 9cb3a99..7bc53ac 100644
--- a/source/MultiOrderRHSStrategy.cc
+++ b/source/MultiOrderRHSStrategy.cc
@@ -223,9 +223,9 @@ void MultiOrderRHSStrategy::evaluateRHS(const double time,
                                                       d_temperature_scratch_id,
                                                       d_f_a_id, false);
 
-      d_free_energy_strategy->computeFreeEnergySolidB(*patch,
-                                                      d_temperature_scratch_id,
-                                                      d_f_b_id, false);
+      if (d_f_b_id >= 0)
+         d_free_energy_strategy->computeFreeEnergySolidB(
+             *patch, d_temperature_scratch_id, d_f_b_id, false);
 
       // then add component from chemical energy
       d_free_energy_strategy->addDrivingForce(
-- 
2.43.0


From a228de2355f9e742d63e53698049faa58f39840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:38 +0000
Subject: [PATCH 81/85] fix: set the coefficients of Beckermann's composition
 equation

---
 source/QuatIntegrator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 222d1de..b72db97 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -32,6 +32,7 @@
 #include "DeltaTemperatureFreeEnergyStrategy.h"
 #include "UniformNoise.h"
 #include "toolsSAMRAI.h"
+#include "BeckermannCompositionRHSStrategy.h"
 #include "EBSCompositionRHSStrategy.h"
 #include "PhaseRHSStrategyWithQ.h"
 #include "ThreePhasesRHSStrategy.h"
@@ -2417,6 +2418,13 @@ void QuatIntegrator::setDiffusionCoeffForConcentration(
       kks_rhs->setDiffusionCoeff(hierarchy, time);
    }
 
+   std::shared_ptr<BeckermannCompositionRHSStrategy> beckermann_rhs =
+       std::dynamic_pointer_cast<BeckermannCompositionRHSStrategy>(
+           d_composition_rhs_strategy);
+   if (beckermann_rhs) {
+      beckermann_rhs->setDiffusionCoeff(hierarchy, time);
+   }
+
    std::shared_ptr<WangSinteringCompositionRHSStrategy> ws_rhs =
        std::dynamic_pointer_cast<WangSinteringCompositionRHSStrategy>(
            d_composition_rhs_strategy);
-- 
2.43.0


From 78dc40ff7e097092949563a180df8e514b0b3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:38 +0000
Subject: [PATCH 82/85] fix: Beckermann's solute flux along phase gradients
 follows the interpolation function

---
 source/BeckermannCompositionRHSStrategy.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index 8a2c444..3bd4e9f 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -303,8 +303,10 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
             assert(k >= 0.);
             assert(k <= 1.);
 
-            ptr_phi_diffx[idx_dcoeff] = ptr_dx0_coeff[idx_dcoeff] * (1. - k) *
-                                        c / (1. - hphi + k * hphi);
+            double hphi_prime = DERIV_INTERP_FUNC(phi, &interp_func_type);
+
+            ptr_phi_diffx[idx_dcoeff] = ptr_dx0_coeff[idx_dcoeff] * hphi_prime *
+                                        (1. - k) * c / (1. - hphi + k * hphi);
          }
       }
    }
@@ -340,8 +342,10 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
             double k = average(ptr_k[idx_k], ptr_k[idxm1_k]);
             assert(k == k);
 
-            ptr_phi_diffy[idx_dcoeff] = ptr_dy0_coeff[idx_dcoeff] * (1. - k) *
-                                        c / (1. - hphi + k * hphi);
+            double hphi_prime = DERIV_INTERP_FUNC(phi, &interp_func_type);
+
+            ptr_phi_diffy[idx_dcoeff] = ptr_dy0_coeff[idx_dcoeff] * hphi_prime *
+                                        (1. - k) * c / (1. - hphi + k * hphi);
          }
       }
    }
@@ -379,8 +383,10 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
                double k = average(ptr_k[idx_k], ptr_k[idxm1_k]);
                assert(k == k);
 
+               double hphi_prime = DERIV_INTERP_FUNC(phi, &interp_func_type);
+
                ptr_phi_diffz[idx_dcoeff] = ptr_dz0_coeff[idx_dcoeff] *
-                                           (1. - k) * c /
+                                           hphi_prime * (1. - k) * c /
                                            (1. - hphi + k * hphi);
             }
          }
-- 
2.43.0


From 68441fbb670cf19a2bdeb87b548ec320e3cd4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 83/85] fix: partition phase concentrations are set in ghost
 cells

---
 source/PartitionCoeffRefinePatchStrategy.cc     |  9 +++++++--
 source/PartitionPhaseConcentrationsStrategy.cc  | 17 +++++++++--------
 .../PhaseIndependentConcentrationsStrategy.cc   |  9 ++++++---
 source/QuatModel.cc                             |  4 ++--
 source/QuatModelParameters.h                    |  3 ++-
 5 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/source/PartitionCoeffRefinePatchStrategy.cc b/source/PartitionCoeffRefinePatchStrategy.cc
index b3e53c3..e100f60 100644
--- a/source/PartitionCoeffRefinePatchStrategy.cc
+++ b/source/PartitionCoeffRefinePatchStrategy.cc
@@ -32,12 +32,17 @@ PartitionCoeffRefinePatchStrategy::PartitionCoeffRefinePatchStrategy(
        new solv::CartesianRobinBcHelper(tbox::Dimension(NDIM),
                                         "partition_coeffBcHelper");
    d_partition_coeff_refine_strategy->setTargetDataId(d_partition_coeff_id);
-   std::shared_ptr<tbox::Database> partition_coeff_bc_db =
-       input_bc_db->getDatabase("PartitionCoeff");
+   // no flux by default
+   std::shared_ptr<tbox::Database> partition_coeff_bc_db;
+   if (input_bc_db->isDatabase("PartitionCoeff"))
+      partition_coeff_bc_db = input_bc_db->getDatabase("PartitionCoeff");
    d_partition_coeff_bc_coefs =
        new solv::LocationIndexRobinBcCoefs(tbox::Dimension(NDIM),
                                            "PartitionCoeffBcCoefs",
                                            partition_coeff_bc_db);
+   if (!partition_coeff_bc_db)
+      for (int i = 0; i < 2 * NDIM; i++)
+         d_partition_coeff_bc_coefs->setBoundarySlope(i, 0.);
    d_partition_coeff_refine_strategy->setCoefImplementation(
        d_partition_coeff_bc_coefs);
 }
diff --git a/source/PartitionPhaseConcentrationsStrategy.cc b/source/PartitionPhaseConcentrationsStrategy.cc
index e07096d..f65d150 100644
--- a/source/PartitionPhaseConcentrationsStrategy.cc
+++ b/source/PartitionPhaseConcentrationsStrategy.cc
@@ -31,8 +31,6 @@ int PartitionPhaseConcentrationsStrategy::computePhaseConcentrationsOnPatch(
    assert(cd_c_a);
    assert(d_partition_coeff_id >= 0);
 
-   const hier::Box& pbox = patch->getBox();
-
    std::shared_ptr<pdat::CellData<double> > cd_partition_coeff(
        SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
            patch->getPatchData(d_partition_coeff_id)));
@@ -79,15 +77,18 @@ int PartitionPhaseConcentrationsStrategy::computePhaseConcentrationsOnPatch(
    kp_c_i = jp_c_i * c_i_gbox.numberCells(1);
 #endif
 
-   int imin = pbox.lower(0);
-   int imax = pbox.upper(0);
-   int jmin = pbox.lower(1);
-   int jmax = pbox.upper(1);
+   // compute values in ghost cells too, where all the fields are available
+   const hier::Box box(c_i_gbox * partition_gbox * pf_gbox);
+
+   int imin = box.lower(0);
+   int imax = box.upper(0);
+   int jmin = box.lower(1);
+   int jmax = box.upper(1);
    int kmin = 0;
    int kmax = 0;
 #if (NDIM == 3)
-   kmin = pbox.lower(2);
-   kmax = pbox.upper(2);
+   kmin = box.lower(2);
+   kmax = box.upper(2);
 #endif
 
    const char interp = Thermo4PFM::concInterpChar(d_phase_interp_func_type);
diff --git a/source/PhaseIndependentConcentrationsStrategy.cc b/source/PhaseIndependentConcentrationsStrategy.cc
index 47e38e0..d09dda8 100644
--- a/source/PhaseIndependentConcentrationsStrategy.cc
+++ b/source/PhaseIndependentConcentrationsStrategy.cc
@@ -30,12 +30,15 @@ int PhaseIndependentConcentrationsStrategy::computePhaseConcentrationsOnPatch(
    assert(cd_c_l);
    assert(cd_c_a);
 
-   const hier::Box& pbox = patch->getBox();
+   (void)patch;
+
+   // set values in ghost cells too
+   const hier::Box box(cd_c_l->getGhostBox() * cd_concentration->getGhostBox());
 
    math::PatchCellDataOpsReal<double> cellops;
 
-   cellops.copyData(cd_c_l, cd_concentration, pbox);
-   cellops.copyData(cd_c_a, cd_concentration, pbox);
+   cellops.copyData(cd_c_l, cd_concentration, box);
+   cellops.copyData(cd_c_a, cd_concentration, box);
 
    return 0;
 }
diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 893a4e5..06e88fa 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -359,7 +359,7 @@ void QuatModel::initializeRHSandEnergyStrategies(
          d_phase_conc_strategy = PhaseConcentrationsStrategyFactory::create(
              d_model_parameters, d_conc_l_id, d_conc_a_id, d_conc_b_id,
              d_conc_l_ref_id, d_conc_a_ref_id, d_conc_b_ref_id,
-             d_partition_coeff_id, d_ncompositions, d_conc_db, newton_db);
+             d_partition_coeff_scratch_id, d_ncompositions, d_conc_db, newton_db);
       }
 
       d_free_energy_strategy_for_diffusion = d_free_energy_strategy;
@@ -1488,7 +1488,7 @@ void QuatModel::registerConcentrationVariables(void)
       if (d_model_parameters.needGhosts4PartitionCoeff()) {
          d_partition_coeff_scratch_id = variable_db->registerVariableAndContext(
              d_partition_coeff_var, scratch,
-             hier::IntVector(tbox::Dimension(NDIM), 1));
+             hier::IntVector(tbox::Dimension(NDIM), d_nghosts));
          assert(d_partition_coeff_scratch_id >= 0);
       }
    }
diff --git a/source/QuatModelParameters.h b/source/QuatModelParameters.h
index 6c65b8a..be82832 100644
--- a/source/QuatModelParameters.h
+++ b/source/QuatModelParameters.h
@@ -390,7 +390,8 @@ class QuatModelParameters
 
    bool needGhosts4PartitionCoeff() const
    {
-      return (d_conc_rhs_strategy == ConcRHSstrategy::Beckermann);
+      return (d_conc_rhs_strategy == ConcRHSstrategy::Beckermann ||
+              partition_phase_concentration());
    }
 
    bool concRHSstrategyIsKKS() const
-- 
2.43.0


From 9813a075c009b505fb99749392e2d50e8dc50695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 84/85] fix: extra visit output with Beckermann's composition
 equation

---
 source/QuatModel.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 06e88fa..134982d 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -1398,9 +1398,7 @@ void QuatModel::registerConcentrationVariables(void)
 
    d_model_parameters.checkValidityConcRHSstrategy();
 
-   if (d_model_parameters.concRHSstrategyIsKKS() ||
-       d_model_parameters.concRHSstrategyIsCahnHilliard() ||
-       d_model_parameters.concRHSstrategyIsWangSintering()) {
+   if (!d_model_parameters.concRHSstrategyIsEBS()) {
       if (d_model_parameters.with_extra_visit_output()) {
          d_visit_conc_pfm_diffusion_var.reset(
              new pdat::CellVariable<double>(tbox::Dimension(NDIM),
-- 
2.43.0


From 1556f726b3b90c94213fa8ba836390a2c86de4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:11 +0000
Subject: [PATCH 85/85] fix: fill all the ghost layers in edges and corners at
 physical boundaries

---
 source/CartesianRobinBcHelperWithDepth.cc | 35 +++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/source/CartesianRobinBcHelperWithDepth.cc b/source/CartesianRobinBcHelperWithDepth.cc
index 1894a04..7f67121 100644
--- a/source/CartesianRobinBcHelperWithDepth.cc
+++ b/source/CartesianRobinBcHelperWithDepth.cc
@@ -585,6 +585,41 @@ void CartesianRobinBcHelperWithDepth::setBoundaryValuesInCells(
              "..."
              << "\n not implemented for dim>3" << std::endl);
       }
+
+      /*
+       * The ghost layers further out, in edges and corners, are set from those
+       * of a side, by symmetry in the other directions.
+       */
+      for (int codim = 2; codim <= d_dim.getValue(); codim++) {
+         const std::vector<hier::BoundaryBox>& boxes =
+             pg->getCodimensionBoundaries(codim);
+         for (size_t n = 0; n < boxes.size(); ++n) {
+            const hier::Box& bbox(boxes[n].getBox());
+            const hier::Box fill_box(
+                pg->getBoundaryFillBox(boxes[n], patch_box, gcw_to_fill) *
+                ghost_box);
+            pdat::CellIterator iend(pdat::CellGeometry::end(fill_box));
+            for (pdat::CellIterator ci(pdat::CellGeometry::begin(fill_box));
+                 ci != iend; ++ci) {
+               if (bbox.contains(*ci)) continue;
+               hier::Index side(*ci);
+               bool on_side = true;
+               for (int d = 0; d < d_dim.getValue(); d++) {
+                  const bool below = (bbox.upper(d) < patch_box.lower(d));
+                  const bool above = (bbox.lower(d) > patch_box.upper(d));
+                  if (!below && !above) continue;
+                  if (!on_side)
+                     side(d) = (below ? 2 * patch_box.lower(d) - 1
+                                      : 2 * patch_box.upper(d) + 1) -
+                               side(d);
+                  on_side = false;
+               }
+               if (!ghost_box.contains(side)) continue;
+               for (int depth = 0; depth < data.getDepth(); depth++)
+                  data(*ci, depth) = data(pdat::CellIndex(side), depth);
+            }
+         }
+      }
    }
 
    t_set_boundary_values_in_cells->stop();
-- 
2.43.0

