SEEDS = [
dict(id="cylinder-axis-renormalised", property="P01", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="a static cylinder whose unit axis is not a fixed point of floating-point normalisation, and a restored checkpoint",
 breaks="the restored cylinder's axis differs in the last bit, so the resumed trajectory and the next checkpoint differ",
 edits=[("rigidbody3d/StaticGeometry/StaticCylinder.cpp", "  m_n = MathUtilities::deserialize<Vector3s>( input_stream );\n", "  m_n = MathUtilities::deserialize<Vector3s>( input_stream ).normalized();\n")],
 demo=r'''
#include "sys.h"
int main()
{
  int bad = 0;
  for( int a = -9; a <= 9; ++a ) { for( int b = -9; b <= 9; ++b ) { for( int c = 1; c <= 9; ++c )
  {
    StaticCylinder cyl( Vector3s( 0, 1, 2 ), Vector3s( a, b, c ), 2.0 );
    std::ostringstream o; cyl.serialize( o );
    std::istringstream i( o.str() );
    StaticCylinder back( i );
    std::ostringstream o2; back.serialize( o2 );
    if( o.str() != o2.str() ) { ++bad; }
  } } }
  std::cout << bad << " axes restored differently" << std::endl;
  return bad ? 1 : 0;
}
'''),
dict(id="grid-perimeter-only", property="P02", system="rigidbody2d", flags="",
 needs="a box that spans at least three grid cells in both directions with a small box strictly inside it",
 breaks="the pair is missing from the broad phase, because only the perimeter cells of a large box are filled",
 edits=[("rigidbody2d/SpatialGrid.cpp", "      for( unsigned y_idx = index_lower.y(); y_idx <= index_upper.y(); ++y_idx )\n      {\n",
 "      for( unsigned y_idx = index_lower.y(); y_idx <= index_upper.y(); ++y_idx )\n      {\n        // Boxes can only come together at their outlines\n        const bool on_x_outline{ x_idx == index_lower.x() || x_idx == index_upper.x() };\n        const bool on_y_outline{ y_idx == index_lower.y() || y_idx == index_upper.y() };\n        if( !on_x_outline && !on_y_outline ) { continue; }\n\n")],
 demo=r'''
#include "rigidbody2d/SpatialGrid.h"
#include <iostream>
int main()
{
  std::vector<AABB> a;
  a.emplace_back( Array2s( 0, 0 ), Array2s( 9, 9 ) );
  a.emplace_back( Array2s( 4.2, 4.2 ), Array2s( 4.7, 4.7 ) );
  for( int i = 0; i < 8; ++i ) { a.emplace_back( Array2s( 20 + 2 * i, 20 ), Array2s( 20.5 + 2 * i, 20.5 ) ); }
  std::set<std::pair<unsigned,unsigned>> o;
  SpatialGrid::getPotentialOverlaps( a, o );
  std::cout << o.size() << " pairs" << std::endl;
  return o.size() == 1 && o.count( std::make_pair( 0u, 1u ) ) ? 0 : 1;
}
'''),
dict(id="ccd-end-of-step", property="P03", system="rigidbody2d", flags="",
 needs="two discs whose first touch falls exactly on the end of the step",
 breaks="the swept test reports no hit although the discs touch at the end of the step",
 edits=[("scisim/CollisionDetection/CollisionDetectionUtilities.cpp", "root0 > 1.0", "root0 >= 1.0")],
 demo=r'''
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
#include <iostream>
int main()
{
  const Vector3s c = CollisionDetectionUtilities::computeCCDQuadraticCoeffs( Vector2s( 0, 0 ), Vector2s( 2, 0 ), 1.0, Vector2s( 4, 0 ), Vector2s( 4, 0 ), 1.0 );
  const std::pair<bool,scalar> r = CollisionDetectionUtilities::ballBallCCDCollisionHappens( c );
  std::cout << r.first << std::endl;
  return r.first ? 0 : 1;
}
'''),
dict(id="kinematic-spin-dropped", property="P04", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a spinning fixed box touched by a disc away from the middle of a face",
 breaks="the boundary velocity handed to the solvers leaves out the box's rotation, so it disagrees with the contact's own relative velocity",
 edits=[("rigidbody2d/KinematicObjectCircleConstraint.cpp", "  gdotN( strt_idx ) = - m_n.dot( computeKinematicCollisionPointVelocity( q ) );", "  gdotN( strt_idx ) = - m_n.dot( m_v );")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body box; box.kind = 'b'; box.dim = { { 2, 1, 0 } }; box.fixed = true; box.w[0] = 1.0; sc.b.push_back( box );
  Body d; d.x = vd( 1.5, 1.9 ); d.v = vd( 0.25, -1 ); sc.b.push_back( d );
  Sim s = build( sc );
  Cons c = detect( s, q( s ), q( s ), v( s ) );
  if( c.size() != 1 ) { return 2; }
  VX g( 1 ); c[0]->evalKinematicNormalRelVel( q( s ), 0, g );
  SparseMatrixsc N( 6, 1 ); c[0]->evalgradg( q( s ), 0, N, fsys( s ) );
  const double a = c[0]->evalNdotV( q( s ), v( s ) ), b = ( N.transpose() * v( s ) )( 0 ) + g( 0 );
  std::cout << a << " " << b << std::endl;
  return std::abs( a - b ) < 1e-9 ? 0 : 1;
}
'''),
dict(id="cache-clear-kinematic", property="P07", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="an impulse remembered for a contact with a fixed disc, then cleared, then asked for again",
 breaks="clearing the memory keeps impulses of contacts with fixed bodies, so a stale impulse is handed back",
 edits=[("rigidbody2d/ConstraintCache.cpp", "  m_body_body_constraints.clear();\n  m_kinematic_object_circle_constraints.clear();\n  m_plane_circle_constraints.clear();\n}\n\nbool", "  m_body_body_constraints.clear();\n  m_plane_circle_constraints.clear();\n}\n\nbool")],
 demo=r'''
#include "sys.h"
#include "rigidbody2d/ConstraintCache.h"
using namespace sys;
int main()
{
  Scene sc; Body f; f.fixed = true; sc.b.push_back( f );
  Body d; d.x = vd( 0, 1.9 ); sc.b.push_back( d );
  Sim s = build( sc );
  Cons c = detect( s, q( s ), q( s ), v( s ) );
  if( c.size() != 1 ) { return 2; }
  ConstraintCache cache;
  VX r( 1 ); r << 3.0; cache.cacheConstraint( *c[0], r );
  cache.clear();
  VX back( 1 ); cache.getCachedConstraint( *c[0], back );
  std::cout << back << std::endl;
  return back( 0 ) == 0.0 ? 0 : 1;
}
'''),
dict(id="rational-unit-numerator", property="P11", system="", flags="",
 needs="a fraction with numerator 1 and a negative denominator",
 breaks="the value keeps a negative denominator, and compares unequal to the same number built otherwise",
 edits=[("scisim/Math/Rational.h", "  // Divide by greatest common divisor\n  const T gcd", "  // Already in lowest terms\n  if( m_numerator == 1 )\n  {\n    return;\n  }\n\n  // Divide by greatest common divisor\n  const T gcd")],
 demo=r'''
#include <algorithm>
#include <cassert>
#include "scisim/Math/Rational.h"
#include <iostream>
int main()
{
  const Rational<int> a{ 1, -3 }, b{ -2, 6 };
  std::cout << a << " " << b << std::endl;
  return a == b && a.denominator() > 0 ? 0 : 1;
}
''',
 script='#!/bin/bash\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=c++14 -w -I"$PWD" -o "$T/demo" "$(dirname "$0")/demo.cpp" scisim/StringUtilities.cpp || exit 3\n"$T/demo"\n'),
dict(id="sparse-outer-size", property="P12", system="", flags="",
 needs="a sparse matrix with more or fewer rows than columns",
 breaks="reading back a non-square sparse matrix consumes the wrong number of bytes and yields another matrix",
 edits=[("scisim/Math/MathUtilities.cpp", "outter_indices{ cols + 1 };", "outter_indices{ rows + 1 };")],
 demo=r'''
#include "scisim/Math/MathUtilities.h"
#include <sstream>
#include <iostream>
int main()
{
  SparseMatrixsc A( 2, 4 ); A.insert( 1, 1 ) = 5.0; A.insert( 0, 3 ) = 7.0; A.makeCompressed();
  SparseMatrixsc C( 3, 3 ); C.insert( 2, 2 ) = 1.0; C.makeCompressed();
  std::stringstream s; MathUtilities::serialize( A, s ); MathUtilities::serialize( C, s );
  SparseMatrixsc B, E; MathUtilities::deserialize( B, s );
  if( B.rows() != 2 || B.cols() != 4 || ( MatrixXXsc( A ) - MatrixXXsc( B ) ).norm() != 0.0 ) { return 1; }
  MathUtilities::deserialize( E, s );
  return E.rows() == 3 && E.coeff( 2, 2 ) == 1.0 ? 0 : 1;
}
''',
 script='#!/bin/bash\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=c++14 -w -O1 -DCMAKE_DETECTED_GNU_COMPILER -I"$PWD" -isystem /usr/include/eigen3 -o "$T/demo" "$(dirname "$0")/demo.cpp" scisim/Math/MathUtilities.cpp scisim/StringUtilities.cpp scisim/Utilities.cpp || exit 3\n"$T/demo"\n'),
]
