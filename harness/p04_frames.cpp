// P04: contact frames and impulses obey kinematics and Newton's third law.
//
// For every contact that detection reports in an enumerated space of arrangements, every representation of
// the contact that the solvers use (normal, point, relative velocity, normal speed, gradient column, friction
// columns, So-bogus blocks, kinematic terms, forcing term, pairwise response) is compared with rigid-body
// kinematics at the contact. All of them are affine in the velocity, so they are evaluated on the zero vector,
// every unit velocity and two mixed velocities.
#include "sys.h"
using namespace sys;

namespace
{
const double TOL = 1.0e-8;
bool has( const std::string& s, const char* t ) { return s.find( t ) != std::string::npos; }
bool is( const std::string& s, std::initializer_list<const char*> l ) { for( const char* t : l ) { if( s == t ) { return true; } } return false; }

// What each kind of contact offers (the others refuse by terminating)
bool hasGrad( const std::string& n )
{
#if defined(SYS_RB2D)
  return !is( n, { "body_body", "static_plane_body" } );
#else
  return n != "static_cylinder_body";
#endif
}
bool hasTan( const std::string& n )
{
#if defined(SYS_RB2D)
  return n == "circle_circle";
#else
  return n != "static_cylinder_body";
#endif
}
bool hasDisk( const std::string& n )
{
#if defined(SYS_BALL2D)
  return is( n, { "static_drum_constraint", "static_plane_constraint" } );
#elif defined(SYS_RB2D)
  (void) n; return false;
#else
  return is( n, { "body_body", "sphere_sphere", "static_cylinder_sphere", "static_plane_body", "static_plane_box", "static_plane_sphere", "teleported_sphere_sphere" } );
#endif
}
bool hasGap( const std::string& n ) { return is( n, { "ball_ball", "static_plane_constraint", "sphere_sphere", "kinematic_sphere_sphere", "static_cylinder_sphere", "static_plane_sphere" } ); }
bool hasResolve( const std::string& n ) { return is( n, { "ball_ball", "teleported_ball_ball", "sphere_sphere", "static_plane_sphere" } ); }
bool hasNormal( const std::string& n ) { return !is( n, { "static_cylinder_body" } ); }
bool hasPoint( const std::string& n ) { return n != "static_cylinder_body"; }

VX dofOf( const VX& v, int i ) { VX r( D + AD ); r.head( D ) = lin( v, i ); if( AD ) { r.tail( AD ) = ang( v, i ); } return r; }
// Angular momentum (about the origin) of a generalised impulse column
VX angularOf( const VX& q, const VX& c )
{
  const int n = nb( c );
  VX L = VX::Zero( D == 2 ? 1 : 3 );
  for( int i = 0; i < n; ++i )
  {
    const VD x = pos( q, i ), p = lin( c, i );
    if( D == 2 ) { L( 0 ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); if( AD ) { L( 0 ) += ang( c, i )( 0 ); } }
    else { const int z = D - 1; L( 0 ) += x( 1 ) * p( z ) - x( z ) * p( 1 ); L( z ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); L( 1 ) += x( z ) * p( 0 ) - x( 0 ) * p( z ); if( AD ) { L += ang( c, i ); } }
  }
  return L;
}
VD linearOf( const VX& c ) { VD p = VD::Zero(); for( int i = 0; i < nb( c ); ++i ) { p += lin( c, i ); } return p; }

// What the reference knows about one contact
struct Ref
{
  int i = -1, j = -1;        // bodies (second: -1 for static)
  bool simj = false;         // second body takes part dynamically
  bool check_n = true;
  VD n = VD::Zero();         // expected normal
  bool check_p = true;       // expected point (only where it is unique)
  VD p = VD::Zero();
  bool arms_given = false;   // arms for images (point relative to each body)
  VD d = VD::Zero();         // vector from (the image of) the second to the first
  VD kin = VD::Zero();       // velocity of the static / kinematic second participant, or the image's kick
  double gap = std::nan( "" );
  double volume = std::nan( "" );
};

std::vector<VX> velocities( int ndof )
{
  std::vector<VX> vs( 1, VX::Zero( ndof ) );
  for( int k = 0; k < ndof; ++k ) { vs.push_back( VX::Unit( ndof, k ) ); }
  VX a( ndof ), b( ndof ); for( int k = 0; k < ndof; ++k ) { a( k ) = 0.5 * ( ( 7 * k + 3 ) % 11 ) - 2.25; b( k ) = -1.0 * ( ( 5 * k + 1 ) % 7 ) + 2.5; }
  vs.push_back( a ); vs.push_back( b );
  return vs;
}

SparseMatrixsc column( int rows, int cols, int per ) { SparseMatrixsc m( rows, cols ); m.reserve( Eigen::VectorXi::Constant( cols, per ) ); return m; }

void inspect( Sim& sim, const std::string& what, const Constraint& c, const VX& q, const Ref& r )
{
  const std::string name = c.name();
  const int ndof = int( v( sim ).size() );
  auto ctx = [&]{ return name + " " + std::to_string( r.i ) + "-" + std::to_string( r.j ) + " in " + what; };
  vp::transition();
  vp::outcome( name );

  std::pair<int,int> sb( -7, -7 );
  c.getSimulatedBodyIndices( sb );
  VP_CHECK( sb.first == r.i && sb.second == ( r.simj ? r.j : -1 ), ctx() << ": simulated bodies reported as " << sb.first << "," << sb.second );

  MX basis0; { MatrixXXsc b; c.computeBasis( q, VX::Zero( ndof ), b ); basis0 = b; }
  const VD n = basis0.col( 0 );
  VP_CHECK( std::fabs( n.norm() - 1.0 ) <= TOL, ctx() << ": normal " << vp::vstr( n ) << " is not a unit vector" );
  if( r.check_n ) { VP_CHECK( ( n - r.n ).norm() <= 1.0e-7, ctx() << ": normal " << vp::vstr( n ) << ", expected " << vp::vstr( r.n ) ); }
  if( hasNormal( name ) ) { VX m; c.getWorldSpaceContactNormal( q, m ); VP_CHECK( m.size() == D && ( m - n ).norm() <= TOL, ctx() << ": reported normal " << vp::vstr( m ) << " differs from the basis normal " << vp::vstr( n ) ); }
  VD r0 = VD::Zero(), r1 = VD::Zero();
  if( hasPoint( name ) )
  {
    VX p; c.getWorldSpaceContactPoint( q, p );
    VP_CHECK( p.size() == D, ctx() << ": contact point has wrong size" );
    if( r.check_p ) { VP_CHECK( ( p - r.p ).norm() <= 1.0e-7, ctx() << ": contact point " << vp::vstr( p ) << ", expected " << vp::vstr( r.p ) ); }
    r0 = p - pos( q, r.i );
    if( r.j >= 0 ) { r1 = r0 + r.d; }
  }
  else { r0 = r.p - pos( q, r.i ); }
  auto relOf = [&]( const VX& vv ) { VD x = pointVel( vv, r.i, r0 ) - r.kin; if( r.simj ) { x -= pointVel( vv, r.j, r1 ); } return x; };

  // Columns of the contact
  VX g; 
  double knrm = 0.0;
  if( hasGrad( name ) )
  {
    SparseMatrixsc G = column( ndof, 2, c.impactStencilSize() );
    c.evalgradg( q, 1, G, fsys( sim ) );
    VP_CHECK( MX( G ).col( 0 ).norm() == 0.0, ctx() << ": gradient written to the wrong column" );
    g = MX( G ).col( 1 );
    VX kn = VX::Constant( 2, 77.0 ); c.evalKinematicNormalRelVel( q, 1, kn ); knrm = kn( 1 );
    VP_CHECK( kn( 0 ) == 77.0, ctx() << ": kinematic normal velocity written to the wrong place" );
    VP_CHECK( std::fabs( knrm + n.dot( r.kin ) ) <= TOL, ctx() << ": kinematic normal velocity " << knrm << ", expected " << -n.dot( r.kin ) );
    if( c.conservesTranslationalMomentum() ) { VP_CHECK( linearOf( g ).norm() <= TOL, ctx() << ": an impulse changes total momentum" ); }
    if( c.conservesAngularMomentumUnderImpact() ) { VP_CHECK( angularOf( q, g ).norm() <= 1.0e-7, ctx() << ": an impulse changes total angular momentum" ); }
    if( r.simj ) { VP_CHECK( linearOf( g ).norm() <= TOL, ctx() << ": the impulse on the second body is not opposite to the one on the first" ); }
  }
  // So-bogus blocks
  auto blocks = [&]( const MX& basis, MX& H0, MX& H1 )
  {
    MatrixXXsc h0 = MatrixXXsc::Zero( D, D + AD ), h1 = MatrixXXsc::Zero( D, D + AD ); MatrixXXsc bb = basis;
    c.evalH( q, bb, h0, h1 ); H0 = h0; H1 = h1;
  };
  std::vector<VX> tans; std::vector<VD> tdir;
  for( int k = 1; k < D; ++k )
  {
    const VD t = basis0.col( k );
    tdir.push_back( t );
    if( D == 3 ) { tdir.push_back( ( 0.6 * basis0.col( 1 ) + 0.8 * basis0.col( 2 ) ) ); tdir.push_back( -t ); } else { tdir.push_back( -t ); }
  }
  if( hasTan( name ) ) { for( const VD& t : tdir )
  {
    SparseMatrixsc T = column( ndof, 2, c.frictionStencilSize() );
    c.computeGeneralizedFrictionGivenTangentSample( q, t, 1, T );
    VP_CHECK( MX( T ).col( 0 ).norm() == 0.0, ctx() << ": friction column written to the wrong column" );
    const VX f = MX( T ).col( 1 );
    tans.push_back( f );
    if( c.conservesTranslationalMomentum() || r.simj ) { VP_CHECK( linearOf( f ).norm() <= TOL, ctx() << ": a friction impulse changes total momentum" ); }
    if( c.conservesAngularMomentumUnderImpactAndFriction() ) { VP_CHECK( angularOf( q, f ).norm() <= 1.0e-7, ctx() << ": a friction impulse changes total angular momentum" ); }
  } }
  for( const VX& vv : velocities( ndof ) )
  {
    const VD rel = relOf( vv );
    const VX got = c.computeRelativeVelocity( q, vv );
    if( hasPoint( name ) )
    {
      VP_CHECK( got.size() == D && ( got - rel ).norm() <= 1.0e-7, ctx() << ": relative velocity " << vp::vstr( got ) << ", expected " << vp::vstr( rel ) << " for v=" << vp::vstr( vv ) );
    }
    const double ndv = c.evalNdotV( q, vv );
    VP_CHECK( std::fabs( ndv - n.dot( got ) ) <= 1.0e-7, ctx() << ": normal speed " << ndv << ", expected " << n.dot( got ) << " for v=" << vp::vstr( vv ) );
    if( g.size() ) { VP_CHECK( std::fabs( g.dot( vv ) + knrm - ndv ) <= 1.0e-7, ctx() << ": gradient gives normal speed " << g.dot( vv ) + knrm << ", expected " << ndv << " for v=" << vp::vstr( vv ) ); }
    for( size_t k = 0; k < tans.size(); ++k ) { VP_CHECK( std::fabs( tans[k].dot( vv ) - tdir[k].dot( VD( got ) + r.kin ) ) <= 1.0e-7, ctx() << ": friction column gives sliding speed " << tans[k].dot( vv ) << ", expected " << tdir[k].dot( VD( got ) + r.kin ) << " for v=" << vp::vstr( vv ) ); }
    MX basis; { MatrixXXsc b; c.computeBasis( q, vv, b ); basis = b; }
    VP_CHECK( ( basis.transpose() * basis - MX::Identity( D, D ) ).norm() <= 1.0e-7 && std::fabs( basis.determinant() - 1.0 ) <= 1.0e-7, ctx() << ": contact basis is not a right-handed frame" );
    VP_CHECK( ( basis.col( 0 ) - n ).norm() <= TOL, ctx() << ": contact normal depends on the velocity" );
    if( D == 3 )
    {
      const VD slide = VD( got ) - n.dot( got ) * n;
      if( slide.norm() > 1.0e-3 ) { VP_CHECK( ( basis.col( 1 ) + slide / slide.norm() ).norm() <= 1.0e-6, ctx() << ": first tangent " << vp::vstr( VX( basis.col( 1 ) ) ) << " does not oppose the sliding " << vp::vstr( slide ) ); }
    }
    MX H0, H1; blocks( basis, H0, H1 );
    VX u = H0 * dofOf( vv, r.i ) - basis.transpose() * r.kin;
    if( r.simj ) { u -= H1 * dofOf( vv, r.j ); }
    VP_CHECK( ( u - basis.transpose() * got ).norm() <= 1.0e-7, ctx() << ": contact blocks give local relative velocity " << vp::vstr( u ) << ", expected " << vp::vstr( VX( basis.transpose() * got ) ) << " for v=" << vp::vstr( vv ) );
    // An impulse with unit local components acts equally and oppositely
    if( r.simj )
    {
      for( int k = 0; k < D; ++k )
      {
        VP_CHECK( ( H0.row( k ).head( D ) - H1.row( k ).head( D ) ).norm() <= TOL, ctx() << ": impulse blocks are not opposite" );
        VX col = VX::Zero( ndof );
        setLin( col, r.i, VD( H0.row( k ).head( D ) ) ); setLin( col, r.j, VD( -H1.row( k ).head( D ) ) );
        if( AD ) { setAng( col, r.i, VX( H0.row( k ).tail( AD ) ) ); setAng( col, r.j, VX( -H1.row( k ).tail( AD ) ) ); }
        if( k == 0 ? c.conservesAngularMomentumUnderImpact() : c.conservesAngularMomentumUnderImpactAndFriction() ) { VP_CHECK( angularOf( q, col ).norm() <= 1.0e-7, ctx() << ": an impulse through the contact blocks changes total angular momentum" ); }
      }
    }
    // Kinematic terms and the restitution forcing term
    const double CoR = 0.25;
    VX drel( D - 1 ); for( int k = 1; k < D; ++k ) { drel( k - 1 ) = -basis.col( k ).dot( r.kin ); }
    const double nrel = -n.dot( r.kin );
    VX ft; { MatrixXXsc bb = basis; VectorXs dd = drel; c.computeForcingTerm( q, vv, bb, CoR, nrel, dd, ft ); }
    const VX want = n * ( CoR * ndv + nrel ) + ( D > 1 ? VX( basis.rightCols( D - 1 ) * drel ) : VX( VX::Zero( D ) ) );
    VP_CHECK( ft.size() == D && ( ft - want ).norm() <= 1.0e-7, ctx() << ": forcing term " << vp::vstr( ft ) << ", expected " << vp::vstr( want ) << " for v=" << vp::vstr( vv ) );
    // Sampled friction directions
    if( hasDisk( name ) ) { for( int ns = 1; ns <= ( D == 2 ? 1 : 4 ); ++ns )
    {
      if( D == 3 && ns == 3 ) { continue; }
      SparseMatrixsc T = column( ndof, ns + 1, c.frictionStencilSize() );
      VX dr = VX::Constant( ns + 1, 55.0 );
      c.computeGeneralizedFrictionDisk( q, vv, 1, ns, T, dr );
      const MX dense = T;
      VP_CHECK( dense.col( 0 ).norm() == 0.0 && dr( 0 ) == 55.0, ctx() << ": friction disk written to the wrong columns" );
      std::vector<VD> dirs;
      for( int s = 0; s < ns; ++s )
      {
        const VX f = dense.col( s + 1 );
        const VD t = lin( f, r.i );
        dirs.push_back( t );
        VP_CHECK( std::fabs( t.norm() - 1.0 ) <= 1.0e-7 && std::fabs( t.dot( n ) ) <= 1.0e-7, ctx() << ": friction direction " << vp::vstr( t ) << " is not a unit tangent" );
        VP_CHECK( std::fabs( dr( s + 1 ) + t.dot( r.kin ) ) <= 1.0e-7, ctx() << ": friction disk kinematic term " << dr( s + 1 ) << ", expected " << -t.dot( r.kin ) );
        VX w( ndof ); for( int k = 0; k < ndof; ++k ) { w( k ) = 0.25 * ( ( 3 * k + 2 ) % 13 ) - 1.5; }
        const VX relw = c.computeRelativeVelocity( q, w );
        VP_CHECK( std::fabs( f.dot( w ) + dr( s + 1 ) - t.dot( relw ) ) <= 1.0e-7, ctx() << ": friction disk column gives sliding speed " << f.dot( w ) + dr( s + 1 ) << ", expected " << t.dot( relw ) );
        if( r.simj ) { VP_CHECK( linearOf( f ).norm() <= TOL, ctx() << ": friction disk impulse is not equal and opposite" ); }
        if( c.conservesAngularMomentumUnderImpactAndFriction() ) { VP_CHECK( angularOf( q, f ).norm() <= 1.0e-7, ctx() << ": friction disk impulse changes angular momentum" ); }
      }
      if( D == 3 )
      {
        const VD slide = VD( got ) - n.dot( got ) * n;
        if( slide.norm() > 1.0e-3 ) { VP_CHECK( ( dirs[0] + slide / slide.norm() ).norm() <= 1.0e-6, ctx() << ": first friction direction does not oppose the sliding" ); }
        for( int s = 0; s < ns; ++s ) { VP_CHECK( std::fabs( dirs[0].dot( dirs[size_t( s )] ) - std::cos( 2.0 * std::acos( -1.0 ) * s / ns ) ) <= 1.0e-7, ctx() << ": friction directions are not evenly spread" ); }
      }
    } }
    // Pairwise response
    if( hasResolve( name ) && ndv < -1.0e-6 ) { for( double e : { 0.0, 0.5, 1.0 } )
    {
      VX out = vv; scalar alpha = -5.0;
      c.resolveImpact( e, sim.state().M(), ndv, out, alpha );
      VP_CHECK( alpha >= 0.0, ctx() << ": pairwise response pulls" );
      VP_CHECK( ( out - vv - VX( sim.state().Minv() * g ) * alpha ).norm() <= 1.0e-7, ctx() << ": pairwise response does not apply its impulse" );
      VP_CHECK( std::fabs( g.dot( out ) - g.dot( vv ) + ( 1.0 + e ) * ndv ) <= 1.0e-7, ctx() << ": pairwise response leaves normal speed " << ndv + g.dot( out ) - g.dot( vv ) << ", expected " << -e * ndv );
    } }
  }
  if( hasGap( name ) && r.gap == r.gap ) { const double gp = c.evaluateGapFunction( q ); VP_CHECK( std::fabs( gp - r.gap ) <= 1.0e-7, ctx() << ": gap " << gp << ", expected " << r.gap ); }
  if( r.gap == r.gap )
  {
    const double pd = c.penetrationDepth( q );
    if( pd == pd ) { VP_CHECK( std::fabs( pd - std::min( 0.0, r.gap ) ) <= 1.0e-7, ctx() << ": penetration depth " << pd << ", expected " << std::min( 0.0, r.gap ) ); }
    else { VP_CHECK( !hasGap( name ) , ctx() << ": penetration depth is not reported" ); }
  }
  if( r.volume == r.volume ) { const double vo = c.overlapVolume( q ); if( vo == vo ) { VP_CHECK( std::fabs( vo - r.volume ) <= 1.0e-7, ctx() << ": overlap volume " << vo << ", expected " << r.volume ); } }
}

// Whole-set quantities: frames and kinematic velocities laid out contact by contact
void inspectSet( Sim& sim, const std::string& what, Cons& set, const VX& q, const std::vector<Ref>& refs )
{
  const int nc = int( set.size() );
  if( nc == 0 ) { return; }
  const int ndof = int( v( sim ).size() );
  const VX vv = velocities( ndof ).back();
  MatrixXXsc cb, ib;
  csys( sim ).computeContactBases( q, vv, set, cb );
  csys( sim ).computeImpactBases( q, set, ib );
  VP_CHECK( cb.rows() == D && cb.cols() == D * nc && ib.rows() == D && ib.cols() == nc, "frames of " << nc << " contacts have wrong size in " << what );
  VX nrel( nc ), drel( nc * ( D - 1 ) );
  Constraint::evalKinematicRelVelGivenBases( q, vv, set, cb, nrel, drel );
  for( int k = 0; k < nc; ++k )
  {
    MatrixXXsc b; set[size_t( k )]->computeBasis( q, vv, b );
    VP_CHECK( ( MX( cb ).middleCols( D * k, D ) - MX( b ) ).norm() <= 1.0e-9, "frame of contact " << k << " misplaced in " << what );
    VP_CHECK( ( MX( ib ).col( k ) - MX( b ).col( 0 ) ).norm() <= 1.0e-9, "normal of contact " << k << " misplaced in " << what );
    VP_CHECK( std::fabs( nrel( k ) + MX( b ).col( 0 ).dot( refs[size_t( k )].kin ) ) <= 1.0e-7, "kinematic normal velocity of contact " << k << " is " << nrel( k ) << " in " << what );
    for( int t = 1; t < D; ++t ) { VP_CHECK( std::fabs( drel( k * ( D - 1 ) + t - 1 ) + MX( b ).col( t ).dot( refs[size_t( k )].kin ) ) <= 1.0e-7, "kinematic tangential velocity of contact " << k << " is " << drel( k * ( D - 1 ) + t - 1 ) << " in " << what ); }
  }
}

double lens( double d, double a, double b )
{
  if( d >= a + b ) { return 0.0; }
  const double PI = std::acos( -1.0 );
  if( d <= std::fabs( a - b ) ) { const double m = std::min( a, b ); return 4.0 / 3.0 * PI * m * m * m; }
  auto cap = [&]( double r, double h ) { return PI * h * h * ( 3.0 * r - h ) / 3.0; };
  const double xa = ( d * d + a * a - b * b ) / ( 2.0 * d );
  return cap( a, a - xa ) + cap( b, b - ( d - xa ) );
}

// Reference for a contact of round bodies / boundaries at configuration q
Ref roundRef( const Scene& sc, const Constraint& c, const VX& q, const std::vector<std::pair<VD,VD>>& shifts )
{
  Ref r;
  std::pair<int,int> b; c.getBodyIndices( b );
  r.i = b.first; r.j = b.second;
  const Body& A = sc.b[size_t( r.i )];
  const VD x = pos( q, r.i );
  if( r.j >= 0 )
  {
    const Body& B = sc.b[size_t( r.j )];
    r.simj = !( AD > 0 && B.fixed );
    r.d = x - pos( q, r.j );
    VD kick = VD::Zero();
    bool image = false;
    // Which image of the second body is it? The nearest one.
    for( const auto& s : shifts )
    {
      const VD e = x - ( pos( q, r.j ) + s.first );
      if( e.norm() < r.d.norm() - 1.0e-9 ) { r.d = e; kick = s.second; image = true; }
    }
    r.n = r.d / r.d.norm();
    r.kin = kick;
    const double R = A.dim[0] + B.dim[0];
    if( !image ) { r.gap = r.d.norm() - R; r.volume = D == 3 ? lens( r.d.norm(), A.dim[0], B.dim[0] ) : std::nan( "" ); }
    // The point: on the line of centres, inside both bodies where they overlap
    VX p; c.getWorldSpaceContactPoint( q, p );
    const VD a = p - x;
    VP_CHECK( ( a - a.dot( r.n ) * r.n ).norm() <= 1.0e-7, c.name() << ": contact point " << vp::vstr( p ) << " is not on the line of centres; " << show( sc ) << " q=" << vp::vstr( q ) );
    const double s = -a.dot( r.n ), L = r.d.norm();
    if( L <= R + 1.0e-9 ) { VP_CHECK( s >= -1.0e-7 && s <= A.dim[0] + 1.0e-7 && L - s <= B.dim[0] + 1.0e-7, c.name() << ": contact point " << vp::vstr( p ) << " is not in the contact; " << show( sc ) << " q=" << vp::vstr( q ) ); }
    else { VP_CHECK( s >= -1.0e-7 && s <= L + 1.0e-7, c.name() << ": contact point " << vp::vstr( p ) << " is not between the bodies; " << show( sc ) << " q=" << vp::vstr( q ) ); }
    r.check_p = false;
    if( !r.simj )
    {
      // Velocity of the fixed body's material point there (3D: fixed bodies are at rest)
      VX w( AD ); for( int k = 0; k < AD; ++k ) { w( k ) = B.w[size_t( k )]; }
      if( AD == 1 ) { r.kin += B.v + spin( w, VD( a + r.d ) ); }
    }
    return r;
  }
  const std::string name = c.name();
  const int k = int( c.getStaticObjectIndex() );
  if( has( name, "drum" ) || has( name, "cylinder" ) )
  {
    const Round& R = sc.rounds[size_t( k )];
    VD d = x - R.x; if( D == 3 ) { d -= d.dot( R.axis ) * R.axis; }
    r.n = -d / d.norm();
    r.gap = R.r - d.norm() - A.dim[0];
    r.p = x - A.dim[0] * r.n;
    if( AD == 3 ) { VX w( 3 ); for( int a = 0; a < 3; ++a ) { w( a ) = D == 3 ? R.w * R.axis( a % D ) : 0.0; } r.kin = spin( w, VD( r.p - R.x ) ); }
    return r;
  }
  const Plane& P = sc.planes[size_t( k )];
  r.n = P.n;
  r.gap = P.n.dot( x - P.x ) - A.dim[0];
  r.p = x - A.dim[0] * r.n;
  VX w( AD ); for( int a = 0; a < AD; ++a ) { w( a ) = P.w[size_t( a )]; }
  r.kin = P.v + ( AD ? spin( w, VD( r.p - P.x ) ) : VD( VD::Zero() ) );
  return r;
}

void runRound( const Scene& sc, const VX* q0in, const std::vector<std::pair<VD,VD>>& shifts, double portal_time = 0.0, int expect = -1 )
{
  Sim sim = build( sc );
#if !defined(SYS_RB3D)
  for( auto& p : sim.state().planarPortals() ) { p.updateMovingPortals( portal_time ); }
#else
  (void) portal_time;
#endif
  const VX q1 = q( sim );
  const VX q0 = q0in ? *q0in : q1;
  Cons set = detect( sim, q0, q1, v( sim ) );
  const std::string what = show( sc ) + " q0=" + vp::vstr( q0 ) + " portal time " + std::to_string( portal_time );
  if( expect >= 0 ) { VP_CHECK( int( set.size() ) >= expect, "expected at least " << expect << " contacts, found " << set.size() << " in " << what ); }
  std::vector<Ref> refs;
  for( const auto& c : set )
  {
    refs.push_back( roundRef( sc, *c, q0, shifts ) );
    inspect( sim, what, *c, q0, refs.back() );
  }
  inspectSet( sim, what, set, q0, refs );
  vp::state( hash( q0, vp::hashStr( what ) ) );
}

Body ball( const VD& x, double r, double m = 1.0 ) { Body b; b.x = x; b.dim[0] = r; b.m = m; b.I = 0.4 * m * r * r; return b; }

void pairs()
{
  const int E = D == 2 ? 4 : 3;
  for( int ra = 1; ra <= 3; ++ra ) { for( int rb = 1; rb <= 3; ++rb ) { for( int dx = -E; dx <= E; ++dx )
  {
    vp::runCase( [&]{ return "pair radii " + std::to_string( ra ) + "," + std::to_string( rb ) + " dx " + std::to_string( dx ); },
    [&]{
      for( int dy = -E; dy <= E; ++dy ) { for( int dz = ( D == 3 ? -E : 0 ); dz <= ( D == 3 ? E : 0 ); ++dz )
      {
        const int d2 = dx * dx + dy * dy + dz * dz;
        if( d2 == 0 || d2 < ( ra - rb ) * ( ra - rb ) ) { continue; }
        const bool touch = d2 <= ( ra + rb ) * ( ra + rb );
        for( int place = 0; place < 3; ++place ) { for( int f = 0; f < ( AD > 0 ? 3 : 1 ); ++f ) { for( int moved = 0; moved < 2; ++moved )
        {
          if( !touch && ( moved == 0 || D == 3 ) ) { continue; }
          if( D == 3 && moved == 1 && f != 0 ) { continue; }
          Scene sc;
          Body A = ball( vd( 1.0 + dx, -0.5 + dy, 2.0 + dz ), ra, 2.0 ), B = ball( vd( 1.0, -0.5, 2.0 ), rb, 3.0 ), C = ball( vd( 40.0, 50.0, 60.0 ), 1.0 );
          if( f == 1 ) { A.fixed = true; } if( f == 2 ) { B.fixed = true; }
          if( AD == 1 && f ) { Body& F = f == 1 ? A : B; F.v = vd( 0.75, -1.5 ); F.w[0] = 2.0; }
          if( place == 0 ) { sc.b = { C, A, B }; } else if( place == 1 ) { sc.b = { A, C, B }; } else { sc.b = { B, A, C }; }
          Sim tmp = build( sc );
          VX q0 = q( tmp );
          if( moved )
          {
            // Start of step configuration differs; without touching at the start 2D bodies are swept into contact
            VX q1 = q0;
            if( touch ) { setPos( q0, 1, VD( pos( q1, 1 ) + vd( 0.25, 0.125, -0.125 ) ) ); runRound( sc, &q0, {} ); }
            else
            {
              // The other body ends the step on top of this one
              Scene s2 = sc;
              const int ia = place == 0 ? 1 : place == 1 ? 0 : 1, ibd = place == 0 ? 2 : place == 1 ? 2 : 0;
              s2.b[size_t( ia )].x = s2.b[size_t( ibd )].x + vd( 0.25, 0.5, 0.0 );
              runRound( s2, &q0, {}, 0.0, 1 );
            }
          }
          else { runRound( sc, nullptr, {}, 0.0, 1 ); }
        } } }
      } }
    } );
  } } }
}

std::vector<VD> directions()
{
  std::vector<VD> ns;
  if( D == 2 ) { for( int k = 0; k < 16; ++k ) { ns.push_back( unitAngle( k * std::acos( -1.0 ) / 8.0 ) ); } ns.push_back( vd( 0.6, -0.8 ) ); }
  else { for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { for( int z = -1; z <= 1; ++z ) { if( x || y || z ) { VD n = vd( x, y, z ); ns.push_back( n / n.norm() ); } } } } ns.push_back( vd( 2.0 / 3, -2.0 / 3, 1.0 / 3 ) ); ns.push_back( vd( 0.48, 0.6, -0.64 ) ); }
  return ns;
}

void statics()
{
  const std::vector<VD> ns = directions();
  for( size_t a = 0; a < ns.size(); ++a ) { for( size_t m = 0; m < ( AD ? 6u : 2u ); ++m )
  {
    vp::runCase( [&]{ return "planes with normal " + vp::vstr( ns[a] ) + " motion " + std::to_string( m ); },
    [&]{
      for( size_t b = 0; b < ns.size(); ++b ) { for( int depth = 0; depth < 3; ++depth ) { for( int off = -2; off <= 2; ++off )
      {
        const bool spins = m >= 2;
        if( spins && depth != 0 ) { continue; }
        Scene sc;
        VD t = D == 2 ? vd( -ns[a]( 1 ), ns[a]( 0 ) ) : vd( 0, 0, 0 );
        if( D == 3 ) { VD u = vd( 0.3, -0.7, 0.2 ); t = u - u.dot( ns[a] ) * ns[a]; t /= t.norm(); }
        Plane P; P.n = ns[a]; P.x = vd( 0.5, -1.0, 0.25 );
        if( m == 1 || m >= 3 ) { P.v = vd( 0.5, -2.0, 1.5 ); }
        if( m >= 2 ) { P.w[0] = AD == 1 ? 1.5 : ( m == 2 ? 1.0 : m == 4 ? 0.0 : 0.5 ); if( AD == 3 ) { P.w[1] = m == 3 ? 2.0 : m == 4 ? -1.0 : 0.0; P.w[2] = m == 5 ? 1.25 : m == 4 ? 0.75 : 0.0; } }
        Plane Q; Q.n = ns[b]; Q.x = vd( -30.0, 10.0, 3.0 ) - 100.0 * ns[b];
        sc.planes = { Q, P };
        const double r = 1.5;
        Body A = ball( VD( P.x + ( r - 0.5 * depth - 1.0e-9 ) * P.n + double( off ) * t ), r, 2.5 ), C = ball( VD( P.x + 20.0 * P.n ), 1.0 );
        sc.b = { C, A };
        runRound( sc, nullptr, {}, 0.0, 1 );
        if( b > 1 && off != 0 ) { break; }
      } } }
    } );
  } }
#if !defined(SYS_RB2D)
  for( size_t a = 0; a < ns.size(); ++a ) { for( int m = 0; m < 2; ++m )
  {
    vp::runCase( [&]{ return "drum contact direction " + vp::vstr( ns[a] ) + " motion " + std::to_string( m ); },
    [&]{
      for( int ax = 0; ax < ( D == 3 ? 5 : 1 ); ++ax ) { for( int depth = 0; depth < 3; ++depth ) { for( int off = -1; off <= 1; ++off )
      {
        if( m && depth ) { continue; }
        Scene sc;
        Round R; R.x = vd( 0.5, -1.0, 0.25 ); R.r = 6.0; R.w = m ? 1.5 : 0.0;
        if( D == 3 ) { R.axis = ax < 3 ? VD( VD::Unit( ax % D ) ) : ax == 3 ? vd( 0.6, 0.0, 0.8 ) : vd( -2.0 / 3, 1.0 / 3, 2.0 / 3 ); }
        VD dir = ns[a]; if( D == 3 ) { dir -= dir.dot( R.axis ) * R.axis; if( dir.norm() < 1.0e-6 ) { continue; } dir /= dir.norm(); }
        Round F; F.x = vd( 0.0, 0.0, 0.0 ); F.r = 500.0; F.axis = R.axis;
        sc.rounds = { F, R };
        const double r = 1.5;
        sc.b = { ball( VD( R.x + 1.0 * dir ), 0.5 ), ball( VD( R.x + ( R.r - r + 0.5 * depth + ( 1.0e-9 ) ) * dir + ( D == 3 ? VD( double( off ) * R.axis ) : VD( VD::Zero() ) ) ), r, 2.5 ) };
        runRound( sc, nullptr, {}, 0.0, 1 );
      } } }
    } );
  } }
#endif
}

void periodic()
{
  for( int axis = 0; axis < D; ++axis ) { for( int side = 0; side < 2; ++side ) { for( int sl = 0; sl < ( D == 2 && axis == 1 ? 4 : 1 ); ++sl ) { for( int order = 0; order < 3; ++order )
  {
    vp::runCase( [&]{ return "periodic axis " + std::to_string( axis ) + " side " + std::to_string( side ) + " sliding " + std::to_string( sl ) + " order " + std::to_string( order ); },
    [&]{
      const double speed = sl == 0 ? 0.0 : sl == 1 ? 1.5 : sl == 2 ? -2.0 : 11.0;
      const double t = 1.0;
      double offs = speed * t; while( offs > 4.0 ) { offs -= 8.0; } while( offs < -4.0 ) { offs += 8.0; }
      Scene base;
      // Half of the domains lie off the origin, with the two planes of each boundary listed the other way round
      // The last one is rotated (in 3D about the first axis: a 3D boundary matches the two planes' frames only up to signs)
      Eigen::Matrix<double,D,D> R = Eigen::Matrix<double,D,D>::Identity();
      if( order == 2 ) { const int k = D - 2, l = D - 1; R( k, k ) = R( l, l ) = 5.0 / 13.0; R( k, l ) = -12.0 / 13.0; R( l, k ) = 12.0 / 13.0; }
      const VD at = order ? vd( 2.5, -1.25, 0.75 ) : VD( VD::Zero() );
      for( int k = 0; k < D; ++k )
      {
        if( k != axis && !( sl && k == 0 ) ) { continue; }
        Portal p; const double up = order ? -1.0 : 1.0; p.xa = at - up * 4.0 * R.col( k ); p.na = up * R.col( k ); p.xb = at + up * 4.0 * R.col( k ); p.nb = -up * R.col( k );
        if( sl && k == axis ) { p.sliding = true; p.speed = speed; p.bounds = 4.0; }
        base.portals.push_back( p );
      }
      // All translations under which the second body can appear, with the velocity its image gains
      std::vector<std::pair<VD,VD>> shifts;
      for( int s : { -1, 1 } )
      {
        for( int w = -1; w <= 1; ++w )
        {
          if( w && !sl ) { continue; }
          VD sh = 8.0 * s * VD::Unit( axis ); VD kick = VD::Zero();
          if( sl ) { sh( 0 ) += s * offs + 8.0 * w; kick( 0 ) = s * speed; }
          shifts.push_back( { R * sh, R * kick } );
        }
      }
      const double ra = 1.0, rb = 1.5;
      const double sg = side ? 1.0 : -1.0;
      for( int a = 0; a < 5; ++a ) { for( int da = -4; da <= 4; ++da ) { for( int db = ( D == 3 ? -2 : 0 ); db <= ( D == 3 ? 2 : 0 ); ++db ) { for( int g = 0; g < 4; ++g ) { for( int f = 0; f < ( D == 3 ? 3 : 1 ); ++f )
      {
        // First body near one side, the second near the image of the first on the other side
        VD x = VD::Zero(); x( axis ) = sg * ( 3.25 + 0.125 * a ); x( ( axis + 1 ) % D ) = 0.25 * a;
        VD y = x; y( axis ) -= 8.0 * sg; if( sl ) { y( 0 ) -= sg * offs; while( y( 0 ) > 4.0 ) { y( 0 ) -= 8.0; } while( y( 0 ) < -4.0 ) { y( 0 ) += 8.0; } }
        y( axis ) += sg * 0.5 * ( g + 1 ); y( ( axis + 1 ) % D ) += 0.5 * da; if( D == 3 ) { y( ( axis + 2 ) % D ) += 0.5 * db; }
        if( sl && std::fabs( y( 0 ) ) > 3.0 ) { continue; }
        if( std::fabs( y( axis ) ) + rb < 4.0 ) { continue; }
        if( ( x - y ).norm() <= ra + rb ) { continue; }
        Scene sc = base;
        Body A = ball( R * x + at, ra, 2.0 ), B = ball( R * y + at, rb, 3.0 );
        if( f == 1 ) { A.fixed = true; } if( f == 2 ) { B.fixed = true; }
        if( order ) { std::swap( A, B ); }
        sc.b = { A, B };
        if( g % 2 ) { Body C = ball( at, 0.25 ); bool clear = ( x.norm() > ra + 0.5 ) && ( y.norm() > rb + 0.5 ); if( clear ) { sc.b.insert( sc.b.begin(), C ); } }
        runRound( sc, nullptr, shifts, t );
        // The same contact when the bodies started the step elsewhere, possibly on the other side of the sliding boundary's wrap
        if( f ) { continue; }
        Sim tmp = build( sc );
        const VX q1 = q( tmp );
        const int n = int( sc.b.size() );
        for( const VD& d : { vd( 0.5, 0.0625, 0.125 ), vd( -0.5, -0.0625, 0.0 ), vd( 0.1875, -0.125, -0.0625 ), vd( -0.1875, 0.125, 0.25 ) } )
        {
          for( int who = 0; who < 3; ++who )
          {
            VX q0 = q1;
            if( who != 1 ) { setPos( q0, n - 2, VD( pos( q1, n - 2 ) + d ) ); }
            if( who != 0 ) { setPos( q0, n - 1, VD( pos( q1, n - 1 ) + ( who == 2 ? 0.5 : 1.0 ) * d ) ); }
            runRound( sc, &q0, shifts, t );
          }
        }
      } } } } }
    } );
  } } } }
}

#if defined(SYS_RB2D) || defined(SYS_RB3D)
#if defined(SYS_RB2D)
MX rotOfBody( const Body& b ) { MX r( 2, 2 ); r << std::cos( b.rot[0] ), -std::sin( b.rot[0] ), std::sin( b.rot[0] ), std::cos( b.rot[0] ); return r; }
#else
MX rotOfBody( const Body& b ) { return rotation( b.rot ); }
#endif
VX halves( const Body& b ) { VX h( D ); for( int k = 0; k < D; ++k ) { h( k ) = b.dim[size_t( k )]; } return h; }
// How deep p is inside the body (negative: outside)
double insideBy( const Body& b, const VD& p )
{
  if( b.kind == 'c' ) { return b.dim[0] - ( p - b.x ).norm(); }
  const VX l = rotOfBody( b ).transpose() * ( p - b.x );
  double m = 1.0e300; for( int k = 0; k < D; ++k ) { m = std::min( m, b.dim[size_t( k )] - std::fabs( l( k ) ) ); }
  return m;
}
double extent( const Body& b, const VD& n )
{
  if( b.kind == 'c' ) { return b.dim[0]; }
  const MX R = rotOfBody( b ); double w = 0.0;
  for( int k = 0; k < D; ++k ) { w += b.dim[size_t( k )] * std::fabs( n.dot( VD( R.col( k ) ) ) ); }
  return w;
}
double overlapAlong( const Body& a, const Body& b, const VD& n ) { return extent( a, n ) + extent( b, n ) - n.dot( a.x - b.x ); }
// Least translation along any candidate axis that separates the two
double leastOverlap( const Body& a, const Body& b )
{
  std::vector<VD> axes;
  const MX A = rotOfBody( a ), B = rotOfBody( b );
  for( int k = 0; k < D; ++k ) { if( a.kind == 'b' ) { axes.push_back( VD( A.col( k ) ) ); } if( b.kind == 'b' ) { axes.push_back( VD( B.col( k ) ) ); } }
#if defined(SYS_RB3D)
  if( a.kind == 'b' && b.kind == 'b' ) { for( int k = 0; k < 3; ++k ) { for( int l = 0; l < 3; ++l ) { Eigen::Vector3d n = Eigen::Vector3d( A.col( k ) ).cross( Eigen::Vector3d( B.col( l ) ) ); if( n.norm() > 1.0e-6 ) { axes.push_back( n / n.norm() ); } } } }
#endif
  double best = 1.0e300;
  for( const VD& n : axes ) { best = std::min( best, std::min( overlapAlong( a, b, n ), overlapAlong( a, b, VD( -n ) ) ) ); }
  return best;
}

// The rotation of body i in configuration q
MX rotIn( const VX& q, int i )
{
#if defined(SYS_RB2D)
  const double t = q( 3 * i + 2 ); MX r( 2, 2 ); r << std::cos( t ), -std::sin( t ), std::sin( t ), std::cos( t ); return r;
#else
  return rotOf( q, i );
#endif
}

void runBoxes( const Scene& sc, const VX& shift0, double turn = 0.0 )
{
  Sim sim = build( sc );
  const VX q1 = q( sim );
  VX q0 = q1;
  if( shift0.size() ) { for( int i = 0; i < int( sc.b.size() ); ++i ) { if( !sc.b[size_t( i )].fixed ) { setPos( q0, i, VD( pos( q1, i ) + VD( shift0.head( D ) ) * ( i + 1 ) ) ); } } }
  if( turn != 0.0 )
  {
    const int n = int( sc.b.size() );
    for( int i = 0; i < n; ++i )
    {
      if( sc.b[size_t( i )].fixed ) { continue; }
#if defined(SYS_RB2D)
      q0( 3 * i + 2 ) += turn * ( i + 1 );
#else
      const Eigen::Matrix3d R = Eigen::AngleAxisd( turn * ( i + 1 ), Eigen::Vector3d( 0.6, 0.0, 0.8 ) ).toRotationMatrix() * rotation( sc.b[size_t( i )].rot );
      for( int a = 0; a < 3; ++a ) { for( int c = 0; c < 3; ++c ) { q0( 3 * n + 9 * i + 3 * a + c ) = R( a, c ); } }
#endif
    }
  }
  Cons set = detect( sim, q0, q1, v( sim ) );
  const std::string what = show( sc ) + " q0=" + vp::vstr( q0 );
  std::vector<Ref> refs;
  for( const auto& c : set )
  {
    const std::string name = c->name();
    Ref r;
    std::pair<int,int> b; c->getBodyIndices( b );
    r.i = b.first; r.j = b.second;
    const Body& A = sc.b[size_t( r.i )];
    VX p; c->getWorldSpaceContactPoint( q0, p );
    MatrixXXsc bas; c->computeBasis( q0, VX::Zero( v( sim ).size() ), bas );
    const VD n = MX( bas ).col( 0 );
    r.check_p = false;
    if( r.j >= 0 )
    {
      const Body& B = sc.b[size_t( r.j )];
      r.simj = !B.fixed;
      r.d = pos( q0, r.i ) - pos( q0, r.j );
      r.check_n = false;
      VP_CHECK( n.dot( A.x - B.x ) >= -1.0e-6, name << ": normal " << vp::vstr( n ) << " does not point from the second towards the first body; " << what );
      if( A.kind == 'b' && B.kind == 'b' )
      {
        const double least = leastOverlap( A, B ), along = overlapAlong( A, B, n );
        VP_CHECK( along <= 1.06 * least + 1.0e-6, name << ": separating along the normal " << vp::vstr( n ) << " takes " << along << ", the least is " << least << "; " << what );
        // A point of one box's face moved by half its depth, so it may leave the other box by at most that
        const double slack = ( D == 2 ? 0.5 : 0.55 ) * least + 1.0e-6;
        VP_CHECK( std::max( insideBy( A, p ), insideBy( B, p ) ) >= -1.0e-6 && std::min( insideBy( A, p ), insideBy( B, p ) ) >= -slack, name << ": contact point " << vp::vstr( p ) << " is outside the overlap by " << insideBy( A, p ) << ", " << insideBy( B, p ) << "; " << what );
      }
      else
      {
        // Disc against box: the point of the box nearest to the disc's centre, when the centre is outside the box
        const Body& bx = A.kind == 'b' ? A : B; const Body& dc = A.kind == 'b' ? B : A;
        if( insideBy( bx, dc.x ) < -1.0e-9 )
        {
          VX l = rotOfBody( bx ).transpose() * ( dc.x - bx.x ); for( int k = 0; k < D; ++k ) { l( k ) = std::max( -bx.dim[size_t( k )], std::min( bx.dim[size_t( k )], l( k ) ) ); }
          const VD near = bx.x + rotOfBody( bx ) * l;
          VD e = ( dc.x - near ) / ( dc.x - near ).norm(); if( A.kind == 'b' ) { e = -e; }
          VP_CHECK( ( n - e ).norm() <= 1.0e-7, name << ": normal " << vp::vstr( n ) << ", expected " << vp::vstr( e ) << "; " << what );
          // Between the nearest point of the box and the deepest point of the disc
          const VD in = ( near - dc.x ) / ( near - dc.x ).norm();
          const double s = in.dot( VD( p ) - dc.x );
          VP_CHECK( ( VD( p ) - dc.x - s * in ).norm() <= 1.0e-7 && s >= ( near - dc.x ).norm() - 1.0e-7 && s <= dc.dim[0] + 1.0e-7, name << ": contact point " << vp::vstr( p ) << " is outside the overlap; " << what );
        }
        else { VP_CHECK( std::fabs( n.norm() - 1.0 ) <= 1.0e-7, name << ": normal is not a unit vector; " << what ); }
      }
      if( !r.simj && AD == 1 ) { VX w( 1 ); w( 0 ) = B.w[0]; r.kin = B.v + spin( w, VD( VD( p ) - pos( q0, r.j ) ) ); }
    }
    else
    {
      const Plane& P = sc.planes[ size_t( c->getStaticObjectIndex() ) ];
      r.n = P.n;
      if( A.kind == 'c' ) { r = roundRef( sc, *c, q0, {} ); }
      else
      {
        // One of the corners that reach the plane at the end of the step, where it was at the start of the step
        bool corner = false;
        for( int k = 0; k < ( 1 << D ); ++k )
        {
          VX l = halves( A ); for( int a = 0; a < D; ++a ) { if( ( k >> a ) & 1 ) { l( a ) = -l( a ); } }
          const VD end = VD( pos( q1, r.i ) + VD( rotIn( q1, r.i ) * l ) );
          corner = corner || ( ( VD( p ) - pos( q0, r.i ) - VD( rotIn( q0, r.i ) * l ) ).norm() <= 1.0e-7 && P.n.dot( end - P.x ) <= 1.0e-7 );
        }
        VP_CHECK( corner, name << ": contact point " << vp::vstr( p ) << " is not a corner of the box that touches the plane; " << what );
      }
    }
    refs.push_back( r );
    inspect( sim, what, *c, q0, r );
  }
  inspectSet( sim, what, set, q0, refs );
  vp::state( hash( q0, vp::hashStr( what ) ) );
}

void boxes()
{
  const double PI = std::acos( -1.0 );
#if defined(SYS_RB2D)
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.3, 0, 0 } }, { { PI / 4.0, 0, 0 } }, { { -1.2, 0, 0 } }, { { PI / 2.0, 0, 0 } }, { { 2.4, 0, 0 } } };
  const std::vector<std::array<double,3>> dims = { { { 1.0, 1.0, 0 } }, { { 2.0, 0.5, 0 } }, { { 0.5, 3.0, 0 } } };
#else
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { 0, PI / 4.0, 0 } }, { { 1.2, -1.6, 1.9 } }, { { 0, 0, PI / 2.0 } } };
  const std::vector<std::array<double,3>> dims = { { { 1, 1, 1 } }, { { 2, 0.5, 1 } }, { { 0.5, 0.75, 2.5 } } };
#endif
  const double st = ( D == 2 ? 0.375 : 0.875 ) / ( vp::thorough() ? ( D == 2 ? 5.0 : 2.5 ) : 1.0 );
  const int N = vp::thorough() ? ( D == 2 ? 45 : 8 ) : ( D == 2 ? 9 : 3 );
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t r1 = 0; r1 < rots.size(); ++r1 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t d1 = 0; d1 < dims.size(); ++d1 )
  {
    vp::runCase( [&]{ return "box-box rotations " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " sizes " + std::to_string( d0 ) + "," + std::to_string( d1 ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int k = ( D == 3 ? -N : 0 ); k <= ( D == 3 ? N : 0 ); ++k )
      {
        Body A; A.kind = 'b'; A.rot = rots[r0]; A.dim = dims[d0]; A.x = vd( 1.0 + st * i + 0.03, -2.0 + st * j, 0.5 + st * k + 0.02 ); A.m = 2.0; A.I = 1.5;
        Body B; B.kind = 'b'; B.rot = rots[r1]; B.dim = dims[d1]; B.x = vd( 1.0, -2.0, 0.5 ); B.m = 3.0;
        const double o = leastOverlap( A, B );
        if( o <= 1.0e-6 || o > 0.5 * std::min( halves( A ).minCoeff(), halves( B ).minCoeff() ) ) { continue; }
        Scene sc;
        const int f = D == 3 ? ( i + j + k + 300 ) % 4 : 0;
        if( f == 1 ) { A.fixed = true; } if( f == 3 ) { B.fixed = true; }
        Body C = ball( vd( 50.0, 50.0, 50.0 ), 1.0 );
        const int place = ( i + 2 * j + 300 ) % 3;
        if( place == 0 ) { sc.b = { A, B }; } else if( place == 1 ) { sc.b = { C, B, A }; } else { sc.b = { A, C, B }; }
        VX sh( D ); for( int a = 0; a < D; ++a ) { sh( a ) = a ? -0.125 : 0.25; }
        runBoxes( sc, ( j % 2 ) ? sh : VX( 0 ), i % 2 ? -0.1 : 0.0 );
      } } }
    } );
  } } } }
#if defined(SYS_RB2D)
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( int ri = 0; ri < 3; ++ri ) { for( int fx = 0; fx < 2; ++fx )
  {
    vp::runCase( [&]{ return "circle-box rotation " + std::to_string( r0 ) + " size " + std::to_string( d0 ) + " radius " + std::to_string( ri ) + " fixed " + std::to_string( fx ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int place = 0; place < 3; ++place )
      {
        Body A; A.kind = 'b'; A.rot = rots[r0]; A.dim = dims[d0]; A.x = vd( 1.0, -2.0 ); A.m = 2.0; A.I = 1.5; A.fixed = fx != 0;
        if( fx ) { A.v = vd( 0.5, -0.75 ); A.w[0] = 1.25; }
        Body B = ball( vd( 1.0 + st * i + 0.03, -2.0 + st * j - 0.07 ), ri == 0 ? 0.5 : ri == 1 ? 1.0 : 2.5, 3.0 ), C = ball( vd( 50.0, 50.0 ), 1.0 );
        Scene sc;
        if( place == 0 ) { sc.b = { A, B }; } else if( place == 1 ) { sc.b = { C, B, A }; } else { sc.b = { A, C, B }; }
        VX sh( 2 ); sh << 0.25, -0.125;
        runBoxes( sc, ( ( j % 2 ) && !fx ) ? sh : VX( 0 ) );
      } } }
    } );
  } } } }
#endif
  const std::vector<VD> ns = directions();
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t a = 0; a < ns.size(); ++a )
  {
    for( char kind : std::string( D == 3 ? "bm" : "b" ) )
    vp::runCase( [&]{ return std::string( kind == 'm' ? "mesh" : "box" ) + "-plane rotation " + std::to_string( r0 ) + " size " + std::to_string( d0 ) + " normal " + vp::vstr( ns[a] ); },
    [&]{
      for( int depth = -3; depth <= 3; ++depth ) { for( int moved = 0; moved < 3; ++moved )
      {
        Body A; A.kind = kind; A.rot = rots[r0]; A.dim = dims[d0]; if( kind == 'm' ) { std::sort( A.dim.begin(), A.dim.end(), std::greater<double>() ); } A.m = 2.0; A.I = 1.5;
        Plane P; P.n = ns[a]; P.x = vd( 0.5, -1.0, 0.25 );
        A.x = P.x + ( extent( A, P.n ) * 0.25 * depth - 0.01 ) * P.n + vd( 0.1, 0.2, 0.3 );
        Plane Q = P; Q.x = P.x - 200.0 * P.n;
        Scene sc; sc.planes = { Q, P }; sc.b = { ball( vd( 0.0, 0.0, 0.0 ) + 60.0 * P.n, 1.0 ), A }; if( kind == 'm' ) { sc.b[0] = A; sc.b[0].x += 60.0 * P.n; }
        VX sh( D ); for( int k = 0; k < D; ++k ) { sh( k ) = k ? -0.125 : 0.25; }
        runBoxes( sc, moved ? sh : VX( 0 ), moved == 2 ? 0.15 : 0.0 );
      } }
    } );
  } } }
}

#if defined(SYS_RB3D)
// Mesh against mesh (fixed ones too) and against cylinders, planes being done with the boxes
void runMeshes( const Scene& sc, const VD& shift, double turn )
{
  Sim sim = build( sc );
  const VX q1 = q( sim );
  VX q0 = q1;
  const int n = int( sc.b.size() );
  for( int i = 0; i < n; ++i )
  {
    if( sc.b[size_t( i )].fixed ) { continue; }
    setPos( q0, i, VD( pos( q1, i ) + ( i + 1 ) * shift ) );
    if( turn != 0.0 )
    {
      const Eigen::Matrix3d R = Eigen::AngleAxisd( turn * ( i + 1 ), Eigen::Vector3d( 0.6, 0.0, 0.8 ) ).toRotationMatrix() * rotation( sc.b[size_t( i )].rot );
      for( int a = 0; a < 3; ++a ) { for( int c = 0; c < 3; ++c ) { q0( 3 * n + 9 * i + 3 * a + c ) = R( a, c ); } }
    }
  }
  Cons set = detect( sim, q0, q1, v( sim ) );
  const std::string what = show( sc ) + " q0=" + vp::vstr( q0 );
  std::vector<Ref> refs;
  std::map<std::pair<int,int>,std::vector<int>> corners;   // corners of a body against a cylinder
  for( const auto& c : set )
  {
    const std::string name = c->name();
    Ref r;
    std::pair<int,int> b; c->getSimulatedBodyIndices( b );
    r.i = b.first; r.j = b.second;
    if( name == "static_cylinder_body" )
    {
      const Body& A = sc.b[size_t( r.i )];
      MatrixXXsc bas; c->computeBasis( q0, VX::Zero( v( sim ).size() ), bas );
      MatrixXXsc H0( 3, 6 ), H1( 3, 6 ); H0.setZero(); H1.setZero(); c->evalH( q0, bas, H0, H1 );
      Eigen::Vector3d arm = Eigen::Vector3d::Zero();
      for( int k = 0; k < 3; ++k ) { arm += 0.5 * Eigen::Vector3d( MX( bas ).col( k ) ).cross( Eigen::Vector3d( MX( H0 ).row( k ).tail( 3 ).transpose() ) ); }
      int at = -1;
      const Eigen::Matrix3d R = rotOf( q0, r.i );
      for( int k = 0; k < 8; ++k ) { if( ( arm - R * Eigen::Vector3d( k & 1 ? A.dim[0] : -A.dim[0], k & 2 ? A.dim[1] : -A.dim[1], k & 4 ? A.dim[2] : -A.dim[2] ) ).norm() <= 1.0e-7 ) { at = k; } }
      VP_CHECK( at >= 0, name << ": impulses act at " << vp::vstr( VD( arm ) ) << " from the centre, which is no corner; " << what );
      const Round& cy = sc.rounds[0];
      r.p = pos( q0, r.i ) + arm;
      const Eigen::Vector3d ax = cy.axis.normalized();
      Eigen::Vector3d d = r.p - cy.x; d -= ax.dot( d ) * ax;
      r.n = -d.normalized();
      // The corner that is outside at the end of the step
      const Eigen::Vector3d e = A.x + rotation( A.rot ) * Eigen::Vector3d( at & 1 ? A.dim[0] : -A.dim[0], at & 2 ? A.dim[1] : -A.dim[1], at & 4 ? A.dim[2] : -A.dim[2] ) - cy.x;
      VP_CHECK( ( e - ax.dot( e ) * ax ).norm() >= cy.r - 1.0e-9, name << ": corner " << at << " does not touch the cylinder; " << what );
      corners[ { r.i, 0 } ].push_back( at );
    }
    else
    {
      c->getBodyIndices( b ); r.i = b.first; r.j = b.second;
      const Body& A = sc.b[size_t( r.i )]; const Body& B = sc.b[size_t( r.j )];
      VX p; c->getWorldSpaceContactPoint( q0, p );
      MatrixXXsc bas; c->computeBasis( q0, VX::Zero( v( sim ).size() ), bas );
      const VD nn = MX( bas ).col( 0 );
      r.simj = !B.fixed; r.d = pos( q0, r.i ) - pos( q0, r.j ); r.check_n = false; r.check_p = false;
      bool ok = false, judged = false, sample = false;
      for( int side = 0; side < 2; ++side )
      {
        const Body& S = side ? B : A; const Body& F = side ? A : B;    // sample of S inside F
        const Eigen::Vector3d ls = rotation( S.rot ).transpose() * ( Eigen::Vector3d( p ) - S.x ), lf = rotation( F.rot ).transpose() * ( Eigen::Vector3d( p ) - F.x );
        bool is_sample = false; for( const auto& m : meshSamples( S.dim ) ) { if( ( m - ls ).norm() <= 1.0e-7 ) { is_sample = true; } }
        if( !is_sample || boxDistance( F.dim, lf ) > 1.0e-7 ) { continue; }
        sample = true;
        Eigen::Vector3d grad; bool clear; meshField( F.dim, lf, grad, clear );
        if( !clear ) { ok = true; continue; }
        judged = true;
        const Eigen::Vector3d want = ( side ? -1.0 : 1.0 ) * ( rotation( F.rot ) * grad.normalized() );
        if( ( want - Eigen::Vector3d( nn ) ).norm() <= 1.0e-6 ) { ok = true; }
      }
      VP_CHECK( sample, name << ": contact point " << vp::vstr( p ) << " is no surface sample of one body inside the other; " << what );
      VP_CHECK( ok, name << ": normal " << vp::vstr( nn ) << " at " << vp::vstr( p ) << " does not lead out of the penetrated mesh; " << what );
      vp::outcome( judged ? "mesh normal judged" : "mesh normal on a cell border" );
    }
    refs.push_back( r );
    inspect( sim, what, *c, q0, r );
  }
  for( auto& c : corners ) { auto u = c.second; std::sort( u.begin(), u.end() ); VP_CHECK( std::unique( u.begin(), u.end() ) == u.end(), "a corner touches the cylinder twice; " << what ); }
  bool cyl = false; for( const auto& c : set ) { cyl = cyl || c->name() == "static_cylinder_body"; }
  if( !cyl ) { inspectSet( sim, what, set, q0, refs ); }
  vp::state( hash( q0, vp::hashStr( what ) ) );
}

void meshes()
{
  const double PI = std::acos( -1.0 );
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { 1.2, -1.6, 1.9 } }, { { 0, 0, PI / 2.0 } } };
  const std::vector<std::array<double,3>> dims = { { { 1, 1, 1 } }, { { 2, 1, 0.5 } }, { { 2.5, 0.75, 0.5 } } };
  const int N = vp::thorough() ? 6 : 3;
  const double st = vp::thorough() ? 0.4375 : 0.875;
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t r1 = 0; r1 < rots.size(); ++r1 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t d1 = 0; d1 < dims.size(); ++d1 )
  {
    vp::runCase( [&]{ return "mesh-mesh rotations " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " sizes " + std::to_string( d0 ) + "," + std::to_string( d1 ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int k = -N; k <= N; ++k )
      {
        Body A; A.kind = 'm'; A.rot = rots[r0]; A.dim = dims[d0]; A.x = vd( 1.0 + st * i + 0.03, -2.0 + st * j + 0.01, 0.5 + st * k + 0.02 ); A.m = 2.0; A.I = 1.5;
        Body B; B.kind = 'm'; B.rot = rots[r1]; B.dim = dims[d1]; B.x = vd( 1.0, -2.0, 0.5 ); B.m = 3.0;
        if( ( A.x - B.x ).norm() < 0.5 ) { continue; }
        Scene sc;
        const int f = ( i + j + k + 300 ) % 4;
        if( f == 1 ) { A.fixed = true; } if( f == 3 ) { B.fixed = true; }
        Body C = A; C.fixed = false; C.x = vd( 50.0, 50.0, 50.0 );
        const int place = ( i + 2 * j + 300 ) % 3;
        if( place == 0 ) { sc.b = { A, B }; } else if( place == 1 ) { sc.b = { C, B, A }; } else { sc.b = { A, C, B }; }
        runMeshes( sc, ( j % 2 ) ? vd( 0.25, -0.125, 0.0625 ) : vd( 0, 0, 0 ), k % 2 ? 0.1 : 0.0 );
      } } }
    } );
  } } } }
  const std::vector<Eigen::Vector3d> axes = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 2, -1 }, { -3, 1, 1 } };
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t a = 0; a < axes.size(); ++a ) { for( int ri = 0; ri < 3; ++ri )
  {
    vp::runCase( [&]{ return "mesh-cylinder rotation " + std::to_string( r0 ) + " size " + std::to_string( d0 ) + " axis " + std::to_string( a ) + " radius " + std::to_string( ri ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int moved = 0; moved < 3; ++moved ) { for( int place = 0; place < 2; ++place )
      {
        Body A; A.kind = 'm'; A.rot = rots[r0]; A.dim = dims[d0]; A.x = vd( 1.0 + st * i + 0.03, -2.0 + st * j + 0.01, 0.5 + 0.25 * i ); A.m = 2.0; A.I = 1.5;
        Body B = A; B.fixed = true; B.x = vd( 40.0, 40.0, 40.0 );
        Round R; R.x = vd( 1.0, -2.0, 0.5 ); R.axis = axes[a].normalized(); R.r = ri == 0 ? 1.25 : ri == 1 ? 2.0 : 3.0;
        Scene sc; sc.rounds = { R };
        if( place ) { sc.b = { B, A }; } else { sc.b = { A, B }; }
        runMeshes( sc, moved ? vd( 0.03125, -0.0625, 0.015625 ) : vd( 0, 0, 0 ), moved == 2 ? 0.05 : 0.0 );
      } } } }
    } );
  } } } }
}
#else
void meshes() {}
#endif
#else
void meshes() {}
void boxes() {}
#endif
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  pairs();
  statics();
  periodic();
  boxes();
  meshes();
  return vp::finish();
}
