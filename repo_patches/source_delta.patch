From 023d4e3590af9d5ca2343887f91e1630f523214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:14 +0000
Subject: [PATCH 01/37] fix: keep the sign of decimals with a zero integer part
 when parsing rationals

---
 scisim/Math/Rational.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..873e30c 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -236,7 +236,9 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    // The sign is carried by the text and not the integer part, as a leading -0 reads in as an integer without a sign
+    const T sign{ left_substring.front() == '-' ? T( -1 ) : T( 1 ) };
+    const T numerator{ left_int * denominator + sign * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From 245de5e3919a77f6f74fccbedaa545f8a23dbfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:14 +0000
Subject: [PATCH 02/37] fix: reject rationals with a zero denominator or
 repeated separators when parsing

---
 scisim/Math/Rational.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index 873e30c..96b1da2 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -207,8 +207,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
   const unsigned period_count{ static_cast<unsigned>( std::count( in_string.cbegin(), in_string.cend(), '.' ) ) };
 
   // Valid input: 1 slash 0 periods, 0 slashes 1 period, 0 slashes 0 periods
-  if( slash_count > 2 ) { return false; }
-  if( period_count > 2 ) { return false; }
+  if( slash_count > 1 ) { return false; }
+  if( period_count > 1 ) { return false; }
   if( slash_count == 1 && period_count != 0 ) { return false; }
   if( period_count == 1 && slash_count != 0 ) { return false; }
 
@@ -252,6 +252,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
+    // A fraction with a denominator of 0 is not a number
+    if( right_int == 0 ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From a50c7255e21d408ad4ab021f70de6f53ff46a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:14 +0000
Subject: [PATCH 03/37] fix: do not read past the start of an empty string when
 tokenizing

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From a2ddbf2d663dead86e66fb6111585a36b13a8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:14 +0000
Subject: [PATCH 04/37] fix: treat missing diagonal entries as 0 when testing
 for an identity matrix

---
 scisim/Math/MathUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 4a69725..3aab961 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -48,6 +48,11 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
   }
   for( int outer_idx = 0; outer_idx < A.outerSize(); ++outer_idx )
   {
+    // Entries that are not stored are 0
+    if( fabs( A.coeff( outer_idx, outer_idx ) - 1.0 ) > tol )
+    {
+      return false;
+    }
     for( SparseMatrixsc::InnerIterator it( A, outer_idx ); it; ++it )
     {
       if( it.row() == it.col() )
-- 
2.43.0


From e8b0ce42de922108d9bb027c2d266c69deef7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:01 +0000
Subject: [PATCH 05/37] fix: give the normal of contacts across periodic
 boundaries in 2D rigid-body scenes instead of terminating

---
 rigidbody2d/TeleportedCircleCircleConstraint.cpp | 5 +++++
 rigidbody2d/TeleportedCircleCircleConstraint.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.cpp b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
index 10acc0f..9dafbfa 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.cpp
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
@@ -157,6 +157,11 @@ void TeleportedCircleCircleConstraint::getWorldSpaceContactPoint( const VectorXs
   contact_point = q.segment<2>( 3 * m_idx0 ) + m_r0;
 }
 
+void TeleportedCircleCircleConstraint::getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const
+{
+  contact_normal = m_n;
+}
+
 bool TeleportedCircleCircleConstraint::operator==( const TeleportedCircleCircleConstraint& other ) const
 {
   assert( other.m_idx0 < other.m_idx1 );
diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.h b/rigidbody2d/TeleportedCircleCircleConstraint.h
index 9df9f51..b23a50a 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.h
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.h
@@ -32,6 +32,7 @@ public:
   // For binary force output
   // TODO: We might want to change the output format to accept two points to account for portals
   virtual void getWorldSpaceContactPoint( const VectorXs& q, VectorXs& contact_point ) const override;
+  virtual void getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const override;
 
   bool operator==( const TeleportedCircleCircleConstraint& other ) const;
 
-- 
2.43.0


From 742e84dad792fd791991dbf9efc70b1b531a3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:36 +0000
Subject: [PATCH 06/37] fix: restore penalty forces when resuming a 2D ball
 simulation from a checkpoint

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 19a4bf878c8474e60e1fe6143cc60506ddf93e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:36 +0000
Subject: [PATCH 07/37] fix: restore the GRR friction solver when resuming from
 a checkpoint

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..7a7544f 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -11,6 +11,7 @@
 #include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
@@ -218,6 +219,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new Sobogus{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "NULL" == friction_solver_name )
   {
     friction_solver.reset( nullptr );
-- 
2.43.0


From 7f6a41a0c540f97fa7d3eba217c88b36e771e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:23 +0000
Subject: [PATCH 08/37] fix: restore the symplectic Euler integrator when
 resuming a 2D ball simulation from a checkpoint

---
 ball2d/Ball2DUtilities.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..374046a 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -34,7 +35,11 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   std::unique_ptr<UnconstrainedMap> unconstrained_map{ nullptr };
 
   const std::string integrator_name{ StringUtilities::deserialize( input_stream ) };
-  if( "verlet" == integrator_name )
+  if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
+  else if( "verlet" == integrator_name )
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
-- 
2.43.0


From 9e47936ef60932a165d9f3ba20a306b3f7125464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:23 +0000
Subject: [PATCH 09/37] fix: restore the exponential Euler integrator when
 resuming a 3D rigid-body simulation from a checkpoint

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From 0d00499f019671a7dac4a6bcc5f4dd758e0172bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:16 +0000
Subject: [PATCH 10/37] fix: ball2d contact across a sliding portal used
 differently wrapped start and end images

Contacts across a Lees-Edwards portal are detected with the end of step image
of a ball, but were built with the start of step image. When a ball passes the
portal's wrap within the step the two images are a domain width apart, which
gave the contact a wrong normal.
---
 ball2d/Ball2DSim.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ball2d/Ball2DSim.cpp b/ball2d/Ball2DSim.cpp
index d14ce47..34d61c7 100644
--- a/ball2d/Ball2DSim.cpp
+++ b/ball2d/Ball2DSim.cpp
@@ -658,7 +658,10 @@ void Ball2DSim::generateTeleportedBallBallCollision( const VectorXs& q0, const V
   // Get the center of mass of each body after the teleportation using start of step state
   Vector2s x0;
   Vector2s x1;
-  getTeleportedBallBallCenters( q0, teleported_collision, x0, x1 );
+  // N.B. The collision was detected with q1, so apply q1's teleportation to q0; a moving portal can wrap q0 and q1 differently
+  getTeleportedBallBallCenters( q1, teleported_collision, x0, x1 );
+  x0 += q0.segment<2>( 2 * teleported_collision.bodyIndex0() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex0() );
+  x1 += q0.segment<2>( 2 * teleported_collision.bodyIndex1() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex1() );
   const scalar ri{ r( teleported_collision.bodyIndex0() ) };
   const scalar rj{ r( teleported_collision.bodyIndex1() ) };
 
-- 
2.43.0


From 310fee15f36405c7f3a1a9296924127e4b7b2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:16 +0000
Subject: [PATCH 11/37] fix: rigidbody2d contact across a sliding portal used
 differently wrapped start and end images

Same as for ball2d; debug builds aborted on an assertion that the two images
are shifted equally.
---
 rigidbody2d/RigidBody2DSim.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/rigidbody2d/RigidBody2DSim.cpp b/rigidbody2d/RigidBody2DSim.cpp
index 56466e2..4842ceb 100644
--- a/rigidbody2d/RigidBody2DSim.cpp
+++ b/rigidbody2d/RigidBody2DSim.cpp
@@ -486,25 +486,14 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
   }
 
   // Get the center of mass of each body after the teleportation for the start and end of the step
-  Vector2s x0_t0;
-  Vector2s x1_t0;
-  getTeleportedCollisionCenters( q0, teleported_collision, x0_t0, x1_t0 );
-  const Vector2s delta0_t0{ x0_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-  const Vector2s delta1_t0{ x1_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-
   Vector2s x0_t1;
   Vector2s x1_t1;
   getTeleportedCollisionCenters( q1, teleported_collision, x0_t1, x1_t1 );
-  // TODO: If Lees-Edwards conditions are updated to have different locations at start and end of step
-  //       (instead of same at each, as now) these tests will no longer hold
-  #ifndef NDEBUG
-  {
-    const Vector2s delta0_t1{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-    assert( ( delta0_t0 - delta0_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-    const Vector2s delta1_t1{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-    assert( ( delta1_t0 - delta1_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-  }
-  #endif
+  const Vector2s delta0{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
+  const Vector2s delta1{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
+  // N.B. The collision is detected with q1, so apply q1's teleportation to q0; a moving portal can wrap q0 and q1 differently
+  const Vector2s x0_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) + delta0 };
+  const Vector2s x1_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) + delta1 };
 
   // At least one of the bodies must have been teleported
   assert( teleported_collision.portalIndex0() != std::numeric_limits<unsigned>::max() || teleported_collision.portalIndex1() != std::numeric_limits<unsigned>::max() );
@@ -559,7 +548,7 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
             if( CircleCircleConstraint::isActive( x0_t1, x1_t1, circle_geo0.r(), circle_geo1.r() ) )
             {
               // Creation of constraints at q0 to preserve angular momentum
-              active_set.emplace_back( new TeleportedCircleCircleConstraint{ teleported_collision.bodyIndex0(), teleported_collision.bodyIndex1(), x0_t0, x1_t0, circle_geo0.r(), circle_geo1.r(), delta0_t0, delta1_t0, circle_geo0.r(), circle_geo1.r() } );
+              active_set.emplace_back( new TeleportedCircleCircleConstraint{ teleported_collision.bodyIndex0(), teleported_collision.bodyIndex1(), x0_t0, x1_t0, circle_geo0.r(), circle_geo1.r(), delta0, delta1, circle_geo0.r(), circle_geo1.r() } );
             }
             break;
           }
-- 
2.43.0


From f5ebba681ae66d9422290346c8da33b082ded301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:44 +0000
Subject: [PATCH 12/37] fix: zero friction sanity check looked at the wrong
 contacts' impulses

The start and length passed to segment were swapped, so a debug build aborted
whenever a frictionless contact followed a frictional one.
---
 scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp       | 2 +-
 scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
index 180af4c..8d44ab8 100644
--- a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
@@ -387,7 +387,7 @@ void GeometricImpactFrictionMap::flow( ScriptingCallback& call_back, FlowableSys
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( friction_impulses_per_collision, col_idx * friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
       }
     }
   }
diff --git a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
index 2c5dd2a..4c2a220 100644
--- a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
@@ -360,7 +360,7 @@ void SymplecticEulerImpactFrictionMap::flow( ScriptingCallback& call_back, Flowa
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( friction_impulses_per_collision, col_idx * friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
       }
     }
   }
-- 
2.43.0


From 3904cd06ebf6f12863a931baf1407fe33e18b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 13/37] fix: setting a 3D state without bodies empties the mass
 matrices

---
 rigidbody3d/RigidBody3DState.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 17dfd0a..638b645 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -294,6 +294,13 @@ void RigidBody3DState::setState( const std::vector<Vector3s>& X, const std::vect
     m_M = formWorldSpaceMassMatrix( M, I0, R );
     m_Minv = formWorldSpaceInverseMassMatrix( M, I0, R );
   }
+  else
+  {
+    m_M0.resize( 0, 0 );
+    m_Minv0.resize( 0, 0 );
+    m_M.resize( 0, 0 );
+    m_Minv.resize( 0, 0 );
+  }
 
   assert( MathUtilities::isIdentity( m_M0 * m_Minv0, 1.0e-9 ) );
   assert( MathUtilities::isIdentity( m_M * m_Minv, 1.0e-9 ) );
-- 
2.43.0


From 20ad787c76dba5a3b8558447a28ca3297ad50eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:05 +0000
Subject: [PATCH 14/37] fix: a sliding portal's wrap tolerates rounding at the
 edge of its bounds

---
 ball2d/Portals/PlanarPortal.cpp | 10 +++++-----
 rigidbody2d/PlanarPortal.cpp    | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ball2d/Portals/PlanarPortal.cpp b/ball2d/Portals/PlanarPortal.cpp
index f0b5415..fb6fadc 100644
--- a/ball2d/Portals/PlanarPortal.cpp
+++ b/ball2d/Portals/PlanarPortal.cpp
@@ -196,8 +196,8 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   // ...accounting for periodic boundaries
   const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   tA -= 2.0 * repeat_x * m_bounds;
-  assert( tA >= -m_bounds || !isLeesEdwards() );
-  assert( tA <= m_bounds || !isLeesEdwards() );
+  assert( tA >= -m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
+  assert( tA <= m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
 
   // Map the coordinates to the corresponding plane
   xout = planeB().x() + nA * planeB().n() + tA * planeB().t();
@@ -212,8 +212,8 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   // ...accounting for periodic boundaries
   const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   tB -= 2.0 * repeat_x * m_bounds;
-  assert( tB >= -m_bounds || !isLeesEdwards() );
-  assert( tB <= m_bounds || !isLeesEdwards() );
+  assert( tB >= -m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
+  assert( tB <= m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
 
   // Map the coordinates to the corresponding plane
   xout = planeA().x() + nB * planeA().n() + tB * planeA().t();
@@ -233,7 +233,7 @@ void PlanarPortal::updateMovingPortals( const scalar& t )
 {
   const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
-  assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  assert( fabs( m_dx ) <= m_bounds + 1.0e-9 * ( m_bounds + fabs( m_v * t ) ) );
 }
 
 bool PlanarPortal::isLeesEdwards() const
diff --git a/rigidbody2d/PlanarPortal.cpp b/rigidbody2d/PlanarPortal.cpp
index b8ee9ed..7c98ede 100644
--- a/rigidbody2d/PlanarPortal.cpp
+++ b/rigidbody2d/PlanarPortal.cpp
@@ -304,8 +304,8 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   // ...accounting for periodic boundaries
   const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   tA -= 2.0 * repeat_x * m_bounds;
-  assert( tA >= -m_bounds || !isLeesEdwards() );
-  assert( tA <= m_bounds || !isLeesEdwards() );
+  assert( tA >= -m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
+  assert( tA <= m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
 
   // Map the coordinates to the corresponding plane
   xout = planeB().x() + nA * planeB().n() + tA * planeB().t();
@@ -320,8 +320,8 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   // ...accounting for periodic boundaries
   const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   tB -= 2.0 * repeat_x * m_bounds;
-  assert( tB >= -m_bounds || !isLeesEdwards() );
-  assert( tB <= m_bounds || !isLeesEdwards() );
+  assert( tB >= -m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
+  assert( tB <= m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );
 
   // Map the coordinates to the corresponding plane
   xout = planeA().x() + nB * planeA().n() + tB * planeA().t();
@@ -341,7 +341,7 @@ void PlanarPortal::updateMovingPortals( const scalar& t )
 {
   const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
   m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
-  assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  assert( fabs( m_dx ) <= m_bounds + 1.0e-9 * ( m_bounds + fabs( m_v * t ) ) );
 }
 
 bool PlanarPortal::isLeesEdwards() const
-- 
2.43.0


From 0a5209e21084a55552a6be2b32ce0deb3b33e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:55 +0000
Subject: [PATCH 15/37] fix: staple inertia uses the squared lengths of its
 cylinders

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From 6e83a5943243c445519476d6525c4b89310b10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:55 +0000
Subject: [PATCH 16/37] fix: a staple's bounding box includes its thickness

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..1a2338f 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // Account for the thickness of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From abd364e09f7d20a174d43f7a95b720e2d6b34ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 17/37] fix: 3D forces are evaluated at the requested
 configuration

---
 rigidbody3d/RigidBody3DSim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DSim.cpp b/rigidbody3d/RigidBody3DSim.cpp
index 946e86a..b2fa54f 100644
--- a/rigidbody3d/RigidBody3DSim.cpp
+++ b/rigidbody3d/RigidBody3DSim.cpp
@@ -176,7 +176,7 @@ void RigidBody3DSim::computeForce( const VectorXs& q, const VectorXs& v, const s
 
   for( std::vector<std::unique_ptr<Force>>::size_type frc_idx = 0; frc_idx < m_sim_state.forces().size(); ++frc_idx )
   {
-    m_sim_state.forces()[frc_idx]->computeForce( m_sim_state.q(), m_sim_state.v(), m_sim_state.M(), F );
+    m_sim_state.forces()[frc_idx]->computeForce( q, v, m_sim_state.M(), F );
   }
 }
 
-- 
2.43.0


From 1bf0c7e417d39e42876d6dcb50b53b3f89f9b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 18/37] fix: balls that just touch feel no penalty force

---
 ball2d/Forces/PenaltyForce.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ball2d/Forces/PenaltyForce.cpp b/ball2d/Forces/PenaltyForce.cpp
index b9ab207..0731041 100644
--- a/ball2d/Forces/PenaltyForce.cpp
+++ b/ball2d/Forces/PenaltyForce.cpp
@@ -37,14 +37,13 @@ scalar PenaltyForce::computePotential( const VectorXs& q, const SparseMatrixsc&
       const scalar total_radius{ r(ball0) + r(ball1) };
       // Compute a vector pointing from ball0 to ball1
       const Vector2s n{ q.segment<2>( 2 * ball1 ) - q.segment<2>( 2 * ball0 ) };
-      // If the squared distance is greater or equal to the sum of the radii squared, no force
-      if( n.squaredNorm() > total_radius * total_radius )
+      // Compute the penetration depth
+      const scalar delta{ n.norm() - total_radius };
+      // If the distance is greater or equal to the sum of the radii, no force
+      if( delta >= 0.0 )
       {
         continue;
       }
-      // Compute the penetration depth
-      const scalar delta{ n.norm() - total_radius };
-      assert( delta < 0.0 );
       // U = 0.5 * k * pen_depth ^ power
       U += 0.5 * m_k * std::pow( -delta, m_power );
     }
@@ -68,15 +67,14 @@ void PenaltyForce::computeForce( const VectorXs& q, const VectorXs& v, const Spa
       const scalar total_radius{ r(ball0) + r(ball1) };
       // Compute a vector pointing from ball0 to ball1
       Vector2s n{ q.segment<2>( 2 * ball1 ) - q.segment<2>( 2 * ball0 ) };
-      // Compute the squared length of the vector
-      scalar d{ n.squaredNorm() };
-      // If the squared distance is greater or equal to the sum of the radii squared, no force
-      if( d > total_radius * total_radius )
+      // Compute the length of the vector
+      scalar d{ n.norm() };
+      // If the distance is greater or equal to the sum of the radii, no force
+      if( d >= total_radius )
       {
         continue;
       }
       // Normalize the vector between the balls
-      d = sqrt( d );
       assert( d != 0.0 );
       n /= d;
       assert( fabs( n.norm() - 1.0 ) <= 1.0e-6 );
-- 
2.43.0


From aae7f5fe52ef30d0ccaa6e42bf583eb5cdf138b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 19/37] fix: Fischer-Burmeister bound residual ignored sliding
 along an impulse at its upper bound

---
 .../FrictionMaps/FischerBurmeisterBoundConstrained.cpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
index fd681e9..c7b2e3d 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
@@ -46,7 +46,8 @@ scalar FischerBurmeisterBoundConstrained::operator()( const VectorXs& beta, cons
     }
     else if( beta( i ) >= m_c( i ) )
     {
-      lambda( i ) = std::max<scalar>( lambda( i ), 0.0 );
+      // A positive value is feasible for the complementarity function, so flip the sign to mirror the lower bound
+      lambda( i ) = - std::max<scalar>( lambda( i ), 0.0 );
     }
   }
 
-- 
2.43.0


From b0c509cec88e0a1f8df05e419accd7e95b9e4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:56 +0000
Subject: [PATCH 20/37] fix: Fischer-Burmeister disc residual ignored sliding
 along an impulse on the rim

---
 .../ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
index 045295a..9b5205b 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
@@ -36,7 +36,8 @@ static scalar getSignedTangentMagnitude( const Vector2s& x, const scalar& c, con
       }
     }
 
-    const Vector2s t{ grad - grad.dot( n ) * n };
+    // Only remove the component along n if -grad points outward
+    const Vector2s t{ grad - std::min<scalar>( grad.dot( n ), 0.0 ) * n };
     return - t.norm();
   }
   else
-- 
2.43.0


From 05927a2ab9b464f337d518e49eda8cd642dab825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:38 +0000
Subject: [PATCH 21/37] fix: APGD aborted when its initial Lipschitz estimate
 carried no information

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..20d0e71 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,11 +52,15 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
-    scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
+    scalar Lk{ g.squaredNorm() != 0.0 ? y1.norm() / g.norm() : 0.0 };
+    // No information in this direction (warm start equal to x1, or x0 - x1 in the null space), use a bound on the Lipschitz constant
+    if( Lk == 0.0 )
+    {
+      Lk = A.norm() != 0.0 ? A.norm() : 1.0;
+    }
     assert( Lk != 0.0 );
     scalar tk{ 1.0 / Lk };
 
-- 
2.43.0


From 7ee9d741841f907dba8889a0dd628955758548ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:04 +0000
Subject: [PATCH 22/37] fix: Gauss-Seidel impacts aborted on rounding error in
 the outgoing relative velocity

---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..f24023d 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -45,7 +45,7 @@ void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>&
         // Reflect about this constraint
         scalar local_alpha;
         cons[current_idx]->resolveImpact( CoR( current_idx ), M, ndotv, v1, local_alpha );
-        assert( local_alpha >= 0.0 ); assert( cons[current_idx]->evalNdotV( q0, v1 ) >= 0.0 );
+        assert( local_alpha >= 0.0 ); assert( cons[current_idx]->evalNdotV( q0, v1 ) >= - m_v_tol );
         alpha( current_idx ) += local_alpha;
         // And remember that a collision happend
         collision_happened = true;
-- 
2.43.0


From 5a871c82cfad2bccbbb0df8674c6eb37ac63067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 23/37] fix: 3D So-bogus solve returned rounding-sized friction
 for contacts whose friction coefficient is zero

---
 scisim/ConstrainedMaps/Sobogus.cpp | 8 ++++----
 scisim/ConstrainedMaps/Sobogus.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scisim/ConstrainedMaps/Sobogus.cpp b/scisim/ConstrainedMaps/Sobogus.cpp
index 53f4ef7..ffccb95 100644
--- a/scisim/ConstrainedMaps/Sobogus.cpp
+++ b/scisim/ConstrainedMaps/Sobogus.cpp
@@ -483,7 +483,7 @@ void SobogusFrictionProblem::solveRigidBody2D( const std::vector<std::unique_ptr
   #endif
 }
 
-void SobogusFrictionProblem::solve3D( const std::vector<std::unique_ptr<Constraint>>& active_set, const unsigned max_iters, const unsigned eval_every, const scalar& tol, VectorXs& alpha, VectorXs& beta, VectorXs& f, VectorXs& vout, bool& succeeded, scalar& error, unsigned& num_iterations )
+void SobogusFrictionProblem::solve3D( const std::vector<std::unique_ptr<Constraint>>& active_set, const VectorXs& mu, const unsigned max_iters, const unsigned eval_every, const scalar& tol, VectorXs& alpha, VectorXs& beta, VectorXs& f, VectorXs& vout, bool& succeeded, scalar& error, unsigned& num_iterations )
 {
   assert( tol >= 0.0 );
 
@@ -534,8 +534,8 @@ void SobogusFrictionProblem::solve3D( const std::vector<std::unique_ptr<Constrai
 
     const scalar alpha_local{ r.segment<3>( 3 * clsn_idx ).dot( n ) };
     alpha( clsn_idx ) = alpha_local;
-    const scalar beta0_local{ r.segment<3>( 3 * clsn_idx ).dot( s ) };
-    const scalar beta1_local{ r.segment<3>( 3 * clsn_idx ).dot( t ) };
+    const scalar beta0_local{ mu( clsn_idx ) == 0.0 ? 0.0 : r.segment<3>( 3 * clsn_idx ).dot( s ) };
+    const scalar beta1_local{ mu( clsn_idx ) == 0.0 ? 0.0 : r.segment<3>( 3 * clsn_idx ).dot( t ) };
     beta( 2 * clsn_idx + 0 ) = beta0_local;
     beta( 2 * clsn_idx + 1 ) = beta1_local;
 
@@ -597,7 +597,7 @@ void SobogusFrictionProblem::solve( const std::vector<std::unique_ptr<Constraint
 {
   if( m_solver_type == SobogusSolverType::RigidBodies3D )
   {
-    solve3D( active_set, max_iters, eval_every, tol, alpha, beta, f, vout, succeeded, error, num_iterations );
+    solve3D( active_set, mu, max_iters, eval_every, tol, alpha, beta, f, vout, succeeded, error, num_iterations );
   }
   else if( m_solver_type == SobogusSolverType::Balls2D )
   {
diff --git a/scisim/ConstrainedMaps/Sobogus.h b/scisim/ConstrainedMaps/Sobogus.h
index 00d9495..d3393d7 100644
--- a/scisim/ConstrainedMaps/Sobogus.h
+++ b/scisim/ConstrainedMaps/Sobogus.h
@@ -50,7 +50,7 @@ private:
   void solveRigidBody2D( const std::vector<std::unique_ptr<Constraint>>& active_set, const VectorXs& mu, const unsigned max_iters, const unsigned eval_every, const scalar& tol, VectorXs& alpha, VectorXs& beta, VectorXs& f, VectorXs& vout, bool& succeeded, scalar& error, unsigned& num_iterations );
 
   void initialize3D( const std::vector<std::unique_ptr<Constraint>>& active_set, const MatrixXXsc& contact_bases, const VectorXs& masses, const VectorXs& q0, const VectorXs& v0, const VectorXs& CoR, const VectorXs& mu, const VectorXs& nrel, const VectorXs& drel );
-  void solve3D( const std::vector<std::unique_ptr<Constraint>>& active_set, const unsigned max_iters, const unsigned eval_every, const scalar& tol, VectorXs& alpha, VectorXs& beta, VectorXs& f, VectorXs& vout, bool& succeeded, scalar& error, unsigned& num_iterations );
+  void solve3D( const std::vector<std::unique_ptr<Constraint>>& active_set, const VectorXs& mu, const unsigned max_iters, const unsigned eval_every, const scalar& tol, VectorXs& alpha, VectorXs& beta, VectorXs& f, VectorXs& vout, bool& succeeded, scalar& error, unsigned& num_iterations );
 
   const SobogusSolverType m_solver_type;
 
-- 
2.43.0


From bb228db1cde2e81266762b45a0d4f3871befc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 24/37] fix: triangle mesh collision test rejected samples on a
 border of the distance field's cells

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..033b79c 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -288,11 +288,13 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
   // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // A point on the far border of the grid belongs to the last cell
+  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>().min( m_grid_dimensions.array() - 2 ) };
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-  const Vector3s bc{ ( x.array() - ( m_grid_origin.array() + indices.cast<scalar>().array() * m_cell_delta.array() ) ) / m_cell_delta.array() };
+  // A point on the border between two cells can be placed just outside of its cell by rounding
+  const Vector3s bc{ ( ( x.array() - ( m_grid_origin.array() + indices.cast<scalar>().array() * m_cell_delta.array() ) ) / m_cell_delta.array() ).max( 0.0 ).min( 1.0 ) };
   assert( ( bc.array() >= 0.0 ).all() ); assert( ( bc.array() <= 1.0 ).all() );
 
   // One minus the barycentric coordinates
-- 
2.43.0


From cb33c6adac0d6b9a881b4a70a2f7cd5b560d7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:26 +0000
Subject: [PATCH 25/37] fix: normals of mesh contacts with cylinders were taken
 at the center of mass instead of the contact point

---
 rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
index 519ff4f..f61d60b 100644
--- a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
+++ b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
@@ -83,9 +83,10 @@ std::string StaticCylinderBodyConstraint::name() const
 
 Vector3s StaticCylinderBodyConstraint::computeN( const VectorXs& q ) const
 {
-  const Vector3s x_body{ q.segment<3>( 3 * m_idx_body ) };
+  // The cylinder's normal at the contact point (not at the body's center of mass, which can lie on the other side of the axis)
+  const Vector3s x_contact{ q.segment<3>( 3 * m_idx_body ) + m_r };
   const Vector3s axis{ m_cyl.axis() };
-  Vector3s n{ - ( x_body - m_cyl.x() - axis.dot( x_body - m_cyl.x() ) * axis ) };
+  Vector3s n{ - ( x_contact - m_cyl.x() - axis.dot( x_contact - m_cyl.x() ) * axis ) };
   assert( n.norm() > 0.0 );
   return n / n.norm();
 }
-- 
2.43.0


From 7a93831224dd88da3b9fa68f99aced7af8a92490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:28 +0000
Subject: [PATCH 26/37] fix: refuse a script's index one past the last plane,
 cylinder, contact or force

---
 ball2d/PythonScripting.cpp      | 10 +++++-----
 rigidbody2d/PythonScripting.cpp | 10 +++++-----
 rigidbody3d/PythonScripting.cpp | 16 ++++++++--------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ball2d/PythonScripting.cpp b/ball2d/PythonScripting.cpp
index 6a206a1..4fb98d6 100644
--- a/ball2d/PythonScripting.cpp
+++ b/ball2d/PythonScripting.cpp
@@ -420,7 +420,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -444,7 +444,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -464,7 +464,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -513,7 +513,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -532,7 +532,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index f304934..119288e 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -369,7 +369,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -393,7 +393,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -417,7 +417,7 @@ static PyObject* setStaticPlaneNormal( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneNormal, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -440,7 +440,7 @@ static PyObject* setStaticPlaneAngularVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneAngularVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -460,7 +460,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody3d/PythonScripting.cpp b/rigidbody3d/PythonScripting.cpp
index 504c405..297a209 100644
--- a/rigidbody3d/PythonScripting.cpp
+++ b/rigidbody3d/PythonScripting.cpp
@@ -396,7 +396,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -419,7 +419,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -450,7 +450,7 @@ static PyObject* setStaticCylinderOrientation( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderOrientation, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -478,7 +478,7 @@ static PyObject* setStaticCylinderAngularVelocity( PyObject* self, PyObject* arg
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderAngularVelocity, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -527,7 +527,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -546,7 +546,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionIndices, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -579,7 +579,7 @@ static PyObject* forceType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " for forceType, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -601,7 +601,7 @@ static PyObject* setGravityForce( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " in setGravityForce, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
-- 
2.43.0


From 867b17ede6a18ea87c04ee46a192b2fa231d4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:30 +0000
Subject: [PATCH 27/37] fix: keep line breaks of scene files, which separate
 attributes

---
 ball2dutils/Ball2DSceneParser.cpp           | 1 +
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 1 +
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..f3c3d55 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -66,6 +66,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..5f04c8e 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -62,6 +62,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..0b4218c 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -68,6 +68,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
-- 
2.43.0


From c1faccb21370a7c19f7313cb02a7a0c9dd28883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 28/37] fix: refuse malformed or out-of-range balls, drums and
 gravity in 2D ball scenes

---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index f3c3d55..9165347 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -248,40 +248,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) || m <= 0.0 ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || r <= 0.0 ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -298,17 +298,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || r <= 0.0 ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1432,11 +1432,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From ae2f0bf534149d3a3e9fa415e8415538d851cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 29/37] fix: refuse impact operators with a restitution
 coefficient outside [0,1]

---
 ball2dutils/Ball2DSceneParser.cpp           | 4 ++--
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 4 ++--
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 9165347..78fc2ee 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -905,9 +905,9 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     }
 
     CoR = std::numeric_limits<scalar>::signaling_NaN();
-    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
     {
-      std::cerr << "Could not load CoR value" << std::endl;
+      std::cerr << "Could not load CoR value, value must be a scalar between 0 and 1" << std::endl;
       return false;
     }
   }
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 5f04c8e..f584b12 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -800,9 +800,9 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     }
 
     CoR = std::numeric_limits<scalar>::signaling_NaN();
-    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
     {
-      std::cerr << "Could not load CoR value" << std::endl;
+      std::cerr << "Could not load CoR value, value must be a scalar between 0 and 1" << std::endl;
       return false;
     }
   }
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 0b4218c..55eb0cd 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -1448,9 +1448,9 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
   }
 
   CoR = std::numeric_limits<scalar>::signaling_NaN();
-  if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+  if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
   {
-    std::cerr << "Could not load CoR value" << std::endl;
+    std::cerr << "Could not load CoR value, value must be a scalar between 0 and 1" << std::endl;
     return false;
   }
 
-- 
2.43.0


From 3c6bb845d356bbaacc953367d4a47c1adf13e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 30/37] fix: refuse a sliding boundary with zero bounds in 2D
 rigid-body scenes, as documented

---
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index f584b12..aaa9e3b 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -462,7 +462,7 @@ static bool loadPlanarPortals( const rapidxml::xml_node<>& node, std::vector<Rig
           std::cerr << "Could not load bounds attribue for lees_edwards_portal, value must be a scalar" << std::endl;
           return false;
         }
-        if( bounds < 0 )
+        if( bounds <= 0.0 )
         {
           std::cerr << "Failed to load bounds attribute for lees_edwards_portal, value must be positive" << std::endl;
           return false;
-- 
2.43.0


From d2479dadab9ff3b087d1faefbeac032a1ab4593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 31/37] fix: refuse negative frame rates and iteration counts
 instead of wrapping them around

---
 ball2dutils/Ball2DSceneParser.cpp           | 10 ++++++----
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 78fc2ee..0a80aa6 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -152,11 +152,13 @@ static bool loadCameraSettings( const rapidxml::xml_node<>& node, Eigen::Vector2
       std::cerr << "Failed to locate fps attribute for camera" << std::endl;
       return false;
     }
-    if( !StringUtilities::extractFromString( fps_attrib->value(), fps ) )
+    int signed_fps;
+    if( !StringUtilities::extractFromString( fps_attrib->value(), signed_fps ) || signed_fps < 0 )
     {
       std::cerr << "Failed to parse fps attribute for camera. Value must be a non-negative integer." << std::endl;
       return false;
     }
+    fps = static_cast<unsigned>( signed_fps );
   }
 
   // Attempt to parse the render_at_fps setting
@@ -669,7 +671,7 @@ static bool loadLCPSolver( const rapidxml::xml_node<>& node, std::unique_ptr<Imp
       }
     }
     // Attempt to parse the max number of iterations
-    unsigned max_iters;
+    int max_iters;
     {
       const rapidxml::xml_attribute<>* const itr_nd{ node.first_attribute( "max_iters" ) };
       if( itr_nd == nullptr )
@@ -677,13 +679,13 @@ static bool loadLCPSolver( const rapidxml::xml_node<>& node, std::unique_ptr<Imp
         std::cerr << "Could not locate max_iters for apgd solver" << std::endl;
         return false;
       }
-      if( !StringUtilities::extractFromString( std::string{ itr_nd->value() }, max_iters ) )
+      if( !StringUtilities::extractFromString( std::string{ itr_nd->value() }, max_iters ) || max_iters < 0 )
       {
         std::cerr << "Could not load max_iters for apgd solver, value must be an unsigned integer" << std::endl;
         return false;
       }
     }
-    impact_operator.reset( new LCPOperatorAPGD{ tol, max_iters } );
+    impact_operator.reset( new LCPOperatorAPGD{ tol, static_cast<unsigned>( max_iters ) } );
   }
   #ifdef QL_FOUND
   else if( solver_name == "ql_vp" )
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 55eb0cd..df25b10 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -988,13 +988,13 @@ static bool loadPerspectiveCameraSettings( const rapidxml::xml_node<>& root_node
       std::cerr << "Failed to locate fps attribute for camera" << std::endl;
       return false;
     }
-    unsigned fps;
-    if( !StringUtilities::extractFromString( fps_attrib->value(), fps ) )
+    int fps;
+    if( !StringUtilities::extractFromString( fps_attrib->value(), fps ) || fps < 0 )
     {
       std::cerr << "Failed to parse fps attribute for camera. Value must be a non-negative integer." << std::endl;
       return false;
     }
-    rendering_state.setFPS( fps );
+    rendering_state.setFPS( static_cast<unsigned>( fps ) );
   }
 
   // Attempt to parse the render_at_fps setting
@@ -1102,13 +1102,13 @@ static bool loadOrthographicCameraSettings( const rapidxml::xml_node<>& root_nod
       std::cerr << "Failed to locate fps attribute for camera" << std::endl;
       return false;
     }
-    unsigned fps;
-    if( !StringUtilities::extractFromString( fps_attrib->value(), fps ) )
+    int fps;
+    if( !StringUtilities::extractFromString( fps_attrib->value(), fps ) || fps < 0 )
     {
       std::cerr << "Failed to parse fps attribute for camera. Value must be a non-negative integer." << std::endl;
       return false;
     }
-    rendering_state.setFPS( fps );
+    rendering_state.setFPS( static_cast<unsigned>( fps ) );
   }
 
   // Attempt to parse the render_at_fps setting
-- 
2.43.0


From 982394e7c20560a1948464b24c23fa2bf9a7f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 32/37] fix: refuse planes and cylinders without a direction in
 scene files

---
 ball2dutils/Ball2DSceneParser.cpp           |  5 +++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 0a80aa6..33e8a60 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -360,6 +360,11 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, std::vector<Stat
       }
 
       n << components[0], components[1];
+      if( n.norm() == 0.0 )
+      {
+        std::cerr << "Invalid static_plane n. A nonzero vector is required." << std::endl;
+        return false;
+      }
     }
 
     planes.emplace_back( x, n );
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index df25b10..ca3952c 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -538,6 +538,11 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, RigidBody3DState
         std::cerr << "Failed to load n attribute for static_plane, must provide 3 scalars." << std::endl;
         return false;
       }
+      if( n.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load n attribute for static_plane, must provide a nonzero vector." << std::endl;
+        return false;
+      }
       assert( x.size() == 3 );
     }
     // Create the plane
@@ -771,6 +776,11 @@ static bool loadStaticCylinders( const rapidxml::xml_node<>& node, RigidBody3DSt
         std::cerr << "Failed to load axis attribute for static_cylinder. Must provide 3 scalars." << std::endl;
         return false;
       }
+      if( axis.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load axis attribute for static_cylinder. Must provide a nonzero vector." << std::endl;
+        return false;
+      }
       assert( axis.size() == 3 );
     }
     // Read the radius of the cylinder
-- 
2.43.0


From 9e10cad923cc91fa71038da4b4e5cc026915f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 33/37] fix: refuse renderers of a plane or cylinder one past
 the last

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index ca3952c..3f19ece 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -825,7 +825,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -875,7 +875,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From 80e56ef260b6b6dd09b22d571608316a8db292ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 34/37] fix: refuse 3D rigid bodies without positive density in
 scene files

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 3f19ece..01f6489 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -373,7 +373,7 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
         std::cerr << "Failed to load rho" << std::endl;
         return false;
       }
-      const bool parsed{ StringUtilities::extractFromString( attrib->value(), rho ) };
+      const bool parsed{ StringUtilities::extractFromString( attrib->value(), rho ) && rho > 0.0 };
       if( !parsed )
       {
         std::cerr << "Failed to load rho" << std::endl;
-- 
2.43.0


From 1f5fcb0e4b3bff46ba0fb4abe8efdf8ae1125f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 35/37] fix: report a snapshot that could not be written in
 full

---
 ball2dcli/ball2d_cli.cpp           | 9 +++++++++
 rigidbody2dcli/rigidbody2d_cli.cpp | 9 +++++++++
 rigidbody3dcli/rigidbody3d_cli.cpp | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 5d0ea40..6c7d317 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -247,6 +247,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file, e.g. that the disk did not run out of space
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 4c713f8..1c85f53 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -238,6 +238,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file, e.g. that the disk did not run out of space
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 602b8f3..637f2f7 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -252,6 +252,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file, e.g. that the disk did not run out of space
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From de50bf6ad5a2a40cdc706e998fa862d1b30e6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 36/37] fix: refuse to resume from an incomplete snapshot

---
 ball2dcli/ball2d_cli.cpp           | 13 ++++++++++++-
 rigidbody2dcli/rigidbody2d_cli.cpp | 13 ++++++++++++-
 rigidbody3dcli/rigidbody3d_cli.cpp | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 6c7d317..2e5843f 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -271,6 +271,8 @@ static int deserializeSystem( const std::string& file_name )
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
+  // Report a file that ends early instead of resuming from whatever could be read
+  serial_stream.exceptions( std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit );
 
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
@@ -659,8 +661,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Serialized state in file is incomplete: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 1c85f53..7d43d0c 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -262,6 +262,8 @@ static int deserializeSystem( const std::string& file_name )
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
+  // Report a file that ends early instead of resuming from whatever could be read
+  serial_stream.exceptions( std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit );
 
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
@@ -650,8 +652,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Serialized state in file is incomplete: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 637f2f7..b5b55b6 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -276,6 +276,8 @@ static int deserializeSystem( const std::string& file_name )
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
+  // Report a file that ends early instead of resuming from whatever could be read
+  serial_stream.exceptions( std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit );
 
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
@@ -662,8 +664,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Serialized state in file is incomplete: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
-- 
2.43.0


From 31aed0cb19fb84dfb3c50be4335006d1a275c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 37/37] fix: report contacts between the edges of 3D boxes at
 points on the boxes

The bias that prefers faces was also applied between pairs of edges, so a pair
of edges that is not the least overlapping one could be chosen. The closest
points of the lines through such edges need not lie on the boxes.
---
 rigidbody3d/Constraints/BoxBoxUtilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigidbody3d/Constraints/BoxBoxUtilities.cpp b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
index ac4e569..ecd090d 100644
--- a/rigidbody3d/Constraints/BoxBoxUtilities.cpp
+++ b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
@@ -136,7 +136,9 @@ static bool edgeEdgeSeparatingTest( const scalar& projected_center_dist, const s
   {
     s2 /= l;
     assert( smallest_pen_depth <= 0.0 );
-    const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
+    // Bias towards faces (codes 1...6). Edges are compared as they are, as the closest points on the lines through two
+    // edges are only known to lie on the boxes for the pair of edges with the smallest depth.
+    const scalar fudge_factor{ code <= 6 ? 1.05 : 1.0 };
     if( s2 * fudge_factor > smallest_pen_depth )
     {
       smallest_pen_depth = s2;
-- 
2.43.0

