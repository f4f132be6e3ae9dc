// P18: complementarity and projection solvers return true solutions.
// Every small problem A = N'M^-1 N, b = N'u over lattices of contact directions, masses and velocities (including redundant and
// opposed contacts, where A is singular), from every warm start on a lattice and under every iteration budget, is solved by the real
// solvers and compared with the answer found by going through all active sets. The residual measures are evaluated at every lattice
// point and compared with the optimality conditions. Matrix helpers are compared with dense arithmetic on every small matrix.
#include <cassert>
#include <memory>
#include "vp.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.h"
#include <Eigen/Dense>

using Mat = Eigen::MatrixXd; using Vec = VectorXs;

static SparseMatrixsc sparse( const Mat& m )
{
  SparseMatrixsc s( m.rows(), m.cols() );
  std::vector<Eigen::Triplet<double>> t;
  for( int c = 0; c < m.cols(); ++c ) { for( int r = 0; r < m.rows(); ++r ) { if( m( r, c ) != 0.0 ) { t.emplace_back( r, c, m( r, c ) ); } } }
  s.setFromTriplets( t.begin(), t.end() ); s.makeCompressed();
  return s;
}
static std::string mstr( const Mat& m ) { std::ostringstream o; o << "["; for( int r = 0; r < m.rows(); ++r ) { o << ( r ? "; " : "" ); for( int c = 0; c < m.cols(); ++c ) { o << ( c ? " " : "" ) << m( r, c ); } } o << "]"; return o.str(); }

static double minmap( const Vec& x, const Vec& w ) { double r = 0.0; for( int i = 0; i < x.size(); ++i ) { r = std::max( r, std::abs( std::min( x( i ), w( i ) ) ) ); } return r; }

// The answer, by trying every active set. For positive semidefinite A and b in the range of N' a solution exists and A x + b is the same for all of them.
static bool activeSets( const Mat& A, const Vec& b, Vec& x )
{
  const int n = int( b.size() );
  double best = 1.0e-7; bool found = false;
  for( int s = 0; s < ( 1 << n ); ++s )
  {
    std::vector<int> id; for( int i = 0; i < n; ++i ) { if( s >> i & 1 ) { id.push_back( i ); } }
    Vec y = Vec::Zero( n );
    if( !id.empty() )
    {
      Mat As( id.size(), id.size() ); Vec bs( id.size() );
      for( size_t i = 0; i < id.size(); ++i ) { bs( i ) = -b( id[i] ); for( size_t j = 0; j < id.size(); ++j ) { As( i, j ) = A( id[i], id[j] ); } }
      const Vec ys = As.completeOrthogonalDecomposition().solve( bs );
      for( size_t i = 0; i < id.size(); ++i ) { y( id[i] ) = ys( i ); }
    }
    const double r = minmap( y, A * y + b );
    if( r < best ) { best = r; x = y.cwiseMax( 0.0 ); found = true; }
  }
  return found;
}

struct Problem { Mat N, Minv, A; };

// All lists of ncols contact directions (as a multiset, first index varying fastest) in a system of three coordinates with three masses
static std::vector<Vec> directions()
{
  std::vector<Vec> d;
  auto add = [&]( double a, double b, double c ) { Vec v( 3 ); v << a, b, c; d.push_back( v ); };
  add( 1, 0, 0 ); add( -1, 0, 0 ); add( 0, 1, 0 ); add( 0, 0, 1 ); add( 1, -1, 0 ); add( -1, 1, 0 ); add( 0, 1, -1 ); add( 0.6, 0.8, 0 ); add( 1, 1, 1 );
  return d;
}

static ProjectionSolveResults apgd( const Mat& A, const Vec& b, Vec& x, double tol, unsigned iters )
{
  ProjectionSolveResults r;
  r.achieved_tolerance = -1.0; r.num_iterations = 0xffffffffu;
  ProjectionSolvers::APGD( NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, tol, iters, sparse( A ), b, x, r );
  return r;
}

static void checkRun( const Mat& A, const Vec& b, const Vec& x0, double tol, unsigned iters, const Vec& want, ProjectionSolveResults& r, Vec& x )
{
  x = x0;
  r = apgd( A, b, x, tol, iters );
  vp::transition();
  VP_CHECK( x.size() == b.size() && x.allFinite(), "answer " << vp::vstr( x ) );
  VP_CHECK( ( x.array() >= 0.0 ).all(), "answer not feasible " << vp::vstr( x ) );
  const Vec w = A * x + b;
  const double res = minmap( x, w ), eps = 1.0e-12 * ( 1.0 + A.cwiseAbs().sum() ) * ( 1.0 + x.lpNorm<Eigen::Infinity>() + b.lpNorm<Eigen::Infinity>() );
  VP_CHECK( std::abs( r.achieved_tolerance - res ) <= eps, "reported residual " << r.achieved_tolerance << " but the answer " << vp::vstr( x ) << " has " << res );
  VP_CHECK( ( r.status == ProjectionSolveStatus::Success ) == ( r.achieved_tolerance <= tol ), "status does not agree with the residual " << r.achieved_tolerance );
  VP_CHECK( r.num_iterations <= iters, "more iterations than allowed" );
  if( r.status == ProjectionSolveStatus::Success )
  {
    const Vec dx = x - want, dw = A * dx;
    VP_CHECK( dx.dot( dw ) <= tol * ( dx.lpNorm<1>() + dw.lpNorm<1>() ) + eps, "answer " << vp::vstr( x ) << " is not the solution " << vp::vstr( want ) );
  }
}

static void projectionSolver()
{
  const std::vector<Vec> D = directions();
  const std::vector<double> starts = { -1.0, 0.0, 1.0, 2.0 };
  const int maxcols = vp::thorough() ? 4 : 3;
  for( int n = 1; n <= maxcols; ++n )
  {
    vp::product( std::vector<int>( size_t( n ), int( D.size() ) ), [&]( const std::vector<int>& d )
    {
      for( size_t i = 1; i < d.size(); ++i ) { if( n > 2 && d[i] < d[i-1] ) { return; } }
      for( int masses = 0; masses < 2; ++masses )
      {
        vp::runCase( [&]{ return "non-negative quadratic programs: directions " + vp::str( d ) + " masses " + std::to_string( masses ); }, [&]
        {
          Mat N( 3, n ); for( int i = 0; i < n; ++i ) { N.col( i ) = D[size_t( d[size_t( i )] )]; }
          Mat Minv = Mat::Identity( 3, 3 ); if( masses ) { Minv.diagonal() << 0.5, 4.0, 0.125; }
          const Mat A = N.transpose() * Minv * N;
          vp::product( { 3, 3, 3 }, [&]( const std::vector<int>& u )
          {
            if( vp::thorough() == false && n == 3 && u[2] == 2 ) { return; }
            Vec v( 3 ); v << u[0] - 1.0, u[1] - 1.0, 0.5 * u[2] - 0.5;
            const Vec b = N.transpose() * v;
            Vec want;
            VP_CHECK( activeSets( A, b, want ), "harness: no solution found" );
            vp::state( "qp" + mstr( A ) + vp::vstr( b ) );
            vp::product( std::vector<int>( size_t( n ), int( starts.size() ) ), [&]( const std::vector<int>& s )
            {
              if( n > 2 && !( vp::thorough() && n == 3 ) ) { for( size_t i = 1; i < s.size(); ++i ) { if( s[i] != s[0] && s[i] != 1 ) { return; } } }
              Vec x0( n ); for( int i = 0; i < n; ++i ) { x0( i ) = starts[size_t( s[size_t( i )] )]; }
              vp::note( "b " + vp::vstr( b ) + " warm start " + vp::vstr( x0 ) );
              ProjectionSolveResults r; Vec x;
              checkRun( A, b, x0, 1.0e-5, 5000, want, r, x );
              vp::outcome( r.status == ProjectionSolveStatus::Success ? "solved" : "not converged" );
              VP_CHECK( r.status == ProjectionSolveStatus::Success, "not solved in 5000 iterations, residual " << r.achieved_tolerance );
              if( r.num_iterations > 1000 ) { vp::outcome( "more than 1000 iterations" ); }
              if( s[0] != 1 || x0.squaredNorm() == 0.0 )
              {
                // every iteration budget: what comes back is the best so far
                double last = std::numeric_limits<double>::infinity();
                for( unsigned k = 1; k <= 8; ++k )
                {
                  ProjectionSolveResults rk; Vec xk;
                  checkRun( A, b, x0, 1.0e-5, k, want, rk, xk );
                  VP_CHECK( rk.achieved_tolerance <= last, "budget " << k << " gives residual " << rk.achieved_tolerance << ", a smaller one gave " << last );
                  last = rk.achieved_tolerance;
                  if( k > r.num_iterations ) { VP_CHECK( rk.status == ProjectionSolveStatus::Success && xk == x, "enough iterations, yet a different answer" ); }
                }
              }
            } );
          } );
        } );
      }
    } );
  }
}

// Large programs made of separate small ones, numbered across each other: the answer is that of every part
static void largeProblems()
{
  const std::vector<Vec> D = directions();
  for( int parts : { 6, 12, 40, vp::thorough() ? 400 : 150 } ) { for( int per = 1; per <= 3; ++per ) { for( int form = 0; form < 2; ++form )
  {
    vp::runCase( [&]{ return "large quadratic programs: " + std::to_string( parts ) + " parts of " + std::to_string( per ) + ( form ? " interleaved" : "" ); }, [&]
    {
      for( int stride = 1; stride <= 5; ++stride )
      {
        const int n = parts * per;
        std::vector<Eigen::Triplet<double>> t; Vec b( n ), want( n );
        for( int g = 0; g < parts; ++g )
        {
          Mat N( 3, per ); for( int i = 0; i < per; ++i ) { N.col( i ) = D[size_t( ( g * stride + i * 2 ) % int( D.size() ) )]; }
          Vec m( 3 ); m << 1.0, 0.5 + 0.25 * ( g % 4 ), 1.0 + g % 3;
          Vec u( 3 ); u << ( g * stride ) % 3 - 1.0, ( g + stride ) % 5 * 0.5 - 1.0, ( g % 4 ) * 0.25 - 0.5;
          const Mat A = N.transpose() * m.asDiagonal() * N; const Vec bs = N.transpose() * u; Vec x;
          VP_CHECK( activeSets( A, bs, x ), "harness: no solution found" );
          for( int i = 0; i < per; ++i )
          {
            const int a = form ? i * parts + g : g * per + i; b( a ) = bs( i ); want( a ) = x( i );
            for( int j = 0; j < per; ++j ) { if( A( i, j ) != 0.0 ) { t.emplace_back( a, form ? j * parts + g : g * per + j, A( i, j ) ); } }
          }
        }
        SparseMatrixsc A( n, n ); A.setFromTriplets( t.begin(), t.end() ); A.makeCompressed();
        vp::state( "large" + vp::vstr( b ) );
        for( int start = 0; start < 2; ++start )
        {
          Vec x = start ? Vec::Constant( n, 0.5 ) : Vec::Zero( n );
          ProjectionSolveResults r; r.achieved_tolerance = -1.0; r.num_iterations = 0xffffffffu;
          ProjectionSolvers::APGD( NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, 1.0e-5, 20000, A, b, x, r );
          vp::transition(); vp::note( "start " + std::to_string( start ) + " stride " + std::to_string( stride ) );
          VP_CHECK( x.size() == n && x.allFinite() && ( x.array() >= 0.0 ).all(), "answer not feasible" );
          const Vec w = A * x + b; const double res = minmap( x, w );
          VP_CHECK( std::abs( res - r.achieved_tolerance ) <= 1.0e-9, "reported residual " << r.achieved_tolerance << " but the answer has " << res );
          VP_CHECK( r.status == ProjectionSolveStatus::Success && res <= 1.0e-5, "not solved, residual " << res );
          const Vec d = A * ( x - want );
          VP_CHECK( d.lpNorm<Eigen::Infinity>() <= 0.05, "outcome differs from that of the parts by " << d.lpNorm<Eigen::Infinity>() );
          vp::outcome( "large program" );
        }
        // columns of a large matrix
        std::vector<unsigned> cols; for( int c = n - 1; c >= 0; c -= 2 ) { cols.push_back( unsigned( c ) ); }
        SparseMatrixsc R; MathUtilities::extractColumns( A, cols, R );
        VP_CHECK( R.rows() == n && R.cols() == int( cols.size() ), "size of extracted columns" );
        for( size_t c = 0; c < cols.size(); ++c ) { VP_CHECK( ( Vec( R.col( int( c ) ) ) - Vec( A.col( int( cols[c] ) ) ) ).norm() == 0.0, "column " << cols[c] << " of " << n ); }
        VP_CHECK( MathUtilities::isSymmetric( A, 1.0e-12 ) && !MathUtilities::isIdentity( A, 1.0e-3 ), "symmetry of a large matrix" );
      }
    } );
  } } }
}

static void impactOperators()
{
  const std::vector<Vec> D = directions();
  const double cors[] = { 0.0, 0.5, 1.0 };
  vp::product( { int( D.size() ), int( D.size() ), 3, 3 }, [&]( const std::vector<int>& d )
  {
    vp::runCase( [&]{ return "impact operators: directions " + std::to_string( d[0] ) + "," + std::to_string( d[1] ) + " restitution " + std::to_string( cors[d[2]] ) + "," + std::to_string( cors[d[3]] ); }, [&]
    {
      Mat N( 3, 2 ); N.col( 0 ) = D[size_t( d[0] )]; N.col( 1 ) = D[size_t( d[1] )];
      Mat M = Mat::Identity( 3, 3 ); M.diagonal() << 1.0, 2.0, 4.0;
      const Mat Minv = M.inverse();
      const Mat A = N.transpose() * Minv * N;
      const std::vector<std::unique_ptr<Constraint>> none;
      Vec cor( 2 ); cor << cors[d[2]], cors[d[3]];
      vp::product( { 3, 3, 3, 3, 3, 3 }, [&]( const std::vector<int>& u )
      {
        Vec v0( 3 ), vF( 3 ), nrel( 2 );
        v0 << u[0] - 1.0, u[1] - 1.0, 0.5; vF << v0( 0 ) + u[2] - 1.0, v0( 1 ) + 0.5 * ( u[3] - 1.0 ), 0.25; nrel << 0.5 * ( u[4] - 1 ), 0.25 * ( u[5] - 1 );
        const Vec b = ( N.transpose() * vF + nrel ) + ( cor.array() * ( N.transpose() * v0 + nrel ).array() ).matrix();
        vp::note( "v0 " + vp::vstr( v0 ) + " vF " + vp::vstr( vF ) + " nrel " + vp::vstr( nrel ) );
        Vec lin; ImpactOperatorUtilities::computeLCPQPLinearTerm( sparse( N ), nrel, cor, v0, vF, lin );
        VP_CHECK( lin.size() == 2 && ( lin - b ).lpNorm<Eigen::Infinity>() <= 1.0e-12, "linear term " << vp::vstr( lin ) << " expected " << vp::vstr( b ) );
        vp::transition();
        Vec want;
        // opposed contacts that cannot both be satisfied have no solution
        if( !activeSets( A, b, want ) ) { vp::outcome( "infeasible" ); return; }
        vp::outcome( "feasible" );
        const Vec q0 = Vec::Zero( 3 );
        auto judge = [&]( ImpactOperator& op, double tol )
        {
          Vec alpha = Vec::Zero( 2 );
          op.flow( none, sparse( M ), sparse( Minv ), q0, v0, vF, sparse( N ), sparse( A ), nrel, cor, alpha );
          const Vec w = A * alpha + b;
          VP_CHECK( alpha.size() == 2 && minmap( alpha, w ) <= tol, op.name() << ": residual " << minmap( alpha, w ) << " at " << vp::vstr( alpha ) << ", solution " << vp::vstr( want ) );
          VP_CHECK( ( w - ( A * want + b ) ).lpNorm<Eigen::Infinity>() <= 2.0e-2, op.name() << ": relative velocities " << vp::vstr( w ) );
        };
        { LCPOperatorAPGD op( 1.0e-5, 5000 ); judge( op, 1.0e-5 * 1.001 ); }
        if( u[4] == u[5] ) { LCPOperatorQL op( 1.0e-9 ); judge( op, 1.0e-6 ); }
      } );
    } );
  } );
}

static void frictionOperators()
{
  // A few systems of two contacts with one sliding direction each
  const std::vector<Vec> D = directions();
  vp::product( { int( D.size() ), int( D.size() ) }, [&]( const std::vector<int>& d )
  {
    vp::runCase( [&]{ return "friction operators: directions " + std::to_string( d[0] ) + "," + std::to_string( d[1] ); }, [&]
    {
      Mat T( 3, 2 ); T.col( 0 ) = D[size_t( d[0] )]; T.col( 1 ) = D[size_t( d[1] )];
      Mat Minv = Mat::Identity( 3, 3 ); Minv.diagonal() << 1.0, 0.5, 0.25;
      vp::product( { 3, 3, 3, 3, 3, 2 }, [&]( const std::vector<int>& u )
      {
        Vec v( 3 ), mu( 2 ), alpha( 2 ), rel( 2 );
        v << u[0] - 1.0, 2.0 * ( u[1] - 1.0 ), 0.5; mu << 0.5 * u[2], 0.25; alpha << 1.0, 0.5 * u[3]; rel << 0.5 * ( u[4] - 1 ), u[5];
        vp::note( "v " + vp::vstr( v ) + " mu " + vp::vstr( mu ) + " alpha " + vp::vstr( alpha ) + " rel " + vp::vstr( rel ) );
        vp::transition();
        {
          const Mat Q = T.transpose() * Minv * T; const Vec c = T.transpose() * v + rel;
          BoundConstrainedMDPOperatorQL op( 1.0e-9 );
          Vec beta = Vec::Zero( 2 ), lambda = Vec::Zero( 2 );
          op.flow( 0.0, sparse( Minv ), v, sparse( T ), sparse( Q ), rel, mu, alpha, beta, lambda );
          const Vec w = Q * beta + c;
          for( int i = 0; i < 2; ++i )
          {
            const double bnd = mu( i ) * alpha( i );
            VP_CHECK( std::abs( beta( i ) ) <= bnd + 1.0e-7, "bound: impulse " << beta( i ) << " beyond " << bnd );
            // the impulse opposes what sliding is left, and slides only at the bound
            const double bad = std::max( w( i ) > 0.0 ? std::min( w( i ), beta( i ) + bnd ) : 0.0, w( i ) < 0.0 ? std::min( -w( i ), bnd - beta( i ) ) : 0.0 );
            VP_CHECK( bad <= 1.0e-5, "bound: sliding " << w( i ) << " with impulse " << beta( i ) << " of at most " << bnd );
            // QL reports a multiplier of order 1 for bounds that coincide
            if( bnd > 0.0 ) { VP_CHECK( std::abs( lambda( i ) - std::abs( w( i ) ) ) <= 1.0e-4, "bound: multiplier " << lambda( i ) << " for sliding " << w( i ) ); }
          }
        }
        for( int ns : { 2, 4 } )
        {
          // the disc is sampled by +t,-t (2D) and +t,+s,-t,-s (3D) with s the next coordinate direction
          Mat E = Mat::Zero( 3, 2 * ns );
          for( int k = 0; k < 2; ++k )
          {
            const Vec t = T.col( k ); Vec s( 3 ); s << t( 2 ), t( 0 ), t( 1 );
            if( ns == 2 ) { E.col( 2 * k ) = t; E.col( 2 * k + 1 ) = -t; }
            else { E.col( 4 * k ) = t; E.col( 4 * k + 1 ) = s; E.col( 4 * k + 2 ) = -t; E.col( 4 * k + 3 ) = -s; }
          }
          const Mat Q = E.transpose() * Minv * E;
          Vec r2 = Vec::Zero( 2 * ns ); for( int k = 0; k < 2; ++k ) { r2( ns * k ) = rel( k ); r2( ns * k + ns / 2 ) = -rel( k ); }
          const Vec c = E.transpose() * v + r2;
          LinearMDPOperatorQL op( ns, 1.0e-9 );
          Vec beta = Vec::Zero( 2 * ns ), lambda = Vec::Zero( 2 );
          op.flow( 0.0, sparse( Minv ), v, sparse( E ), sparse( Q ), r2, mu, alpha, beta, lambda );
          const Vec w = Q * beta + c;
          for( int k = 0; k < 2; ++k )
          {
            const double bnd = mu( k ) * alpha( k ), used = beta.segment( ns * k, ns ).sum();
            VP_CHECK( used <= bnd + 1.0e-6, "disc: impulses sum to " << used << " beyond " << bnd );
            VP_CHECK( lambda( k ) >= -1.0e-9 && std::abs( lambda( k ) * ( bnd - used ) ) <= 1.0e-4, "disc: multiplier " << lambda( k ) << " with slack " << bnd - used );
            for( int i = ns * k; i < ns * ( k + 1 ); ++i )
            {
              VP_CHECK( beta( i ) >= -1.0e-9, "disc: negative impulse" );
              VP_CHECK( w( i ) + lambda( k ) >= -1.0e-4, "disc: sliding " << w( i ) << " exceeds the multiplier " << lambda( k ) );
              VP_CHECK( std::abs( beta( i ) * ( w( i ) + lambda( k ) ) ) <= 1.0e-4, "disc: impulse " << beta( i ) << " not against the sliding " << w( i ) << " (multiplier " << lambda( k ) << ")" );
            }
          }
        }
      } );
    } );
  } );
  for( int ns = 1; ns <= 6; ++ns ) { for( int nc = 1; nc <= 4; ++nc )
  {
    vp::runCase( [&]{ return "disc constraint " + std::to_string( ns ) + " samples " + std::to_string( nc ) + " contacts"; }, [&]
    {
      SparseMatrixsc E( ns * nc, nc );
      FrictionOperatorUtilities::formLinearFrictionDiskConstraint( ns, E );
      const Mat e = E;
      for( int r = 0; r < ns * nc; ++r ) { for( int c = 0; c < nc; ++c ) { VP_CHECK( e( r, c ) == ( r / ns == c ? 1.0 : 0.0 ), "entry " << r << "," << c << " is " << e( r, c ) ); } }
      vp::transition();
    } );
  } }
}

static void residuals()
{
  const std::vector<double> L = { -2.0, -0.5, -1.0e-3, 0.0, 1.0e-3, 0.5, 1.0, 3.0 };
  const int K = int( L.size() );
  vp::runCase( []{ return std::string( "projection" ); }, [&]
  {
    vp::product( { K, K, K }, [&]( const std::vector<int>& i )
    {
      Vec x( 3 ); for( int k = 0; k < 3; ++k ) { x( k ) = L[size_t( i[size_t( k )] )]; }
      Vec y = x; NonNegativeProjection{}( y );
      VP_CHECK( y == x.cwiseMax( 0.0 ), "projection of " << vp::vstr( x ) << " is " << vp::vstr( y ) );
    } );
  } );
  for( int n = 1; n <= 3; ++n ) { for( int a0 = 0; a0 < K; ++a0 )
  {
    vp::runCase( [&]{ return "contact residuals, " + std::to_string( n ) + " contacts, first impulse " + std::to_string( L[size_t( a0 )] ); }, [&]
    {
      vp::product( std::vector<int>( size_t( 2 * n - 1 ), K ), [&]( const std::vector<int>& i )
      {
        Vec x( n ), w( n );
        x( 0 ) = L[size_t( a0 )]; for( int k = 0; k < n; ++k ) { w( k ) = L[size_t( i[size_t( k )] )]; } for( int k = 1; k < n; ++k ) { x( k ) = L[size_t( i[size_t( n + k - 1 )] )]; }
        bool sol = true; for( int k = 0; k < n; ++k ) { sol = sol && x( k ) >= 0.0 && w( k ) >= 0.0 && x( k ) * w( k ) == 0.0; }
        const double m = MinMapImpact{}( x, w ), f = FischerBurmeisterImpact{ 1.0e-4 }( x, w );
        vp::transition(); vp::outcome( sol ? "solution" : "not a solution" );
        VP_CHECK( m >= 0.0 && f >= 0.0, "negative residual" );
        VP_CHECK( sol ? m == 0.0 : m >= 0.9e-3, "min-map residual " << m << " at " << vp::vstr( x ) << " " << vp::vstr( w ) );
        VP_CHECK( std::abs( m - minmap( x, w ) ) <= 1.0e-15, "min-map residual " << m << " expected " << minmap( x, w ) );
        VP_CHECK( sol ? f <= 1.0e-15 : f >= 1.0e-4, "Fischer-Burmeister residual " << f << " at " << vp::vstr( x ) << " " << vp::vstr( w ) );
      } );
    } );
  } }
  const std::vector<double> C = { 0.0, 0.5, 2.0 };
  vp::product( { 3, 3 }, [&]( const std::vector<int>& ci )
  {
    vp::runCase( [&]{ return "bounded residual, bounds " + std::to_string( C[size_t( ci[0] )] ) + "," + std::to_string( C[size_t( ci[1] )] ); }, [&]
    {
      const std::vector<double> B = { -3.0, -2.0, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0 }, V = { -1.0, -1.0e-3, 0.0, 1.0e-3, 2.0 };
      Vec c( 2 ); c << C[size_t( ci[0] )], C[size_t( ci[1] )];
      const FischerBurmeisterBoundConstrained res( 1.0e-5, c );
      VP_CHECK( res.tol() == 1.0e-5, "tolerance" );
      vp::product( { 11, 11, 5, 5 }, [&]( const std::vector<int>& i )
      {
        Vec b( 2 ), v( 2 ); b << B[size_t( i[0] )], B[size_t( i[1] )]; v << V[size_t( i[2] )], V[size_t( i[3] )];
        bool sol = true;
        // minimise a convex function with gradient v over [-c,c]
        for( int k = 0; k < 2; ++k ) { sol = sol && std::abs( b( k ) ) <= c( k ) && ( v( k ) <= 0.0 || b( k ) == -c( k ) ) && ( v( k ) >= 0.0 || b( k ) == c( k ) ); }
        const double f = res( b, v );
        vp::transition(); vp::outcome( sol ? "solution" : "not a solution" );
        VP_CHECK( sol ? f <= 1.0e-15 : f >= 1.0e-4, "residual " << f << " at impulses " << vp::vstr( b ) << " sliding " << vp::vstr( v ) << " bounds " << vp::vstr( c ) );
      } );
    } );
  } );
  vp::product( { 3, 3 }, [&]( const std::vector<int>& ci )
  {
    const std::vector<double> CD = { 0.0, 5.0, 1.0 };
    vp::runCase( [&]{ return "disc residual, radii " + std::to_string( CD[size_t( ci[0] )] ) + "," + std::to_string( CD[size_t( ci[1] )] ); }, [&]
    {
      Vec c( 2 ); c << CD[size_t( ci[0] )], CD[size_t( ci[1] )];
      const FischerBurmeisterSmooth res( 1.0e-5, c );
      VP_CHECK( res.tol() == 1.0e-5, "tolerance" );
      const std::vector<std::array<double,2>> B = { { 0, 0 }, { 5, 0 }, { 0, -5 }, { 3, 4 }, { -4, 3 }, { -3, -4 }, { 1, 0 }, { 0, 1 }, { -1, 0 }, { 0.5, 0.25 }, { 4, 4 }, { 6, 0 }, { 2, -1 } };
      const std::vector<std::array<double,2>> V = { { 0, 0 }, { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -2 }, { 3, 4 }, { -3, -4 }, { 4, -3 }, { -4, 3 }, { 0.001, 0 }, { 0, -0.001 } };
      vp::product( { int( B.size() ), int( B.size() ), int( V.size() ), int( V.size() ) }, [&]( const std::vector<int>& i )
      {
        Vec b( 4 ), v( 4 ); for( int k = 0; k < 2; ++k ) { for( int a = 0; a < 2; ++a ) { b( 2 * k + a ) = B[size_t( i[size_t( k )] )][size_t( a )]; v( 2 * k + a ) = V[size_t( i[size_t( 2 + k )] )][size_t( a )]; } }
        bool sol = true;
        for( int k = 0; k < 2; ++k )
        {
          const double b0 = b( 2 * k ), b1 = b( 2 * k + 1 ), v0 = v( 2 * k ), v1 = v( 2 * k + 1 ), n2 = b0 * b0 + b1 * b1;
          if( n2 > c( k ) * c( k ) ) { sol = false; continue; }
          if( c( k ) == 0.0 || ( v0 == 0.0 && v1 == 0.0 ) ) { continue; }
          // at the rim the gradient points straight inwards
          if( n2 < c( k ) * c( k ) || std::abs( b0 * v1 - b1 * v0 ) > 1.0e-12 || b0 * v0 + b1 * v1 > 0.0 ) { sol = false; }
        }
        const double f = res( b, v );
        vp::transition(); vp::outcome( sol ? "solution" : "not a solution" );
        VP_CHECK( sol ? f <= 1.0e-14 : f >= 1.0e-5, "residual " << f << " at impulses " << vp::vstr( b ) << " sliding " << vp::vstr( v ) << " radii " << vp::vstr( c ) );
      } );
    } );
  } );
}

static void helpers()
{
  // Every 3x3 (and smaller) pattern; the first nonzero is also tried as an explicitly stored zero
  for( int rows = 1; rows <= 3; ++rows ) { for( int cols = 1; cols <= 3; ++cols )
  {
    const int n = rows * cols;
    vp::runCase( [&]{ return "column extraction from every " + std::to_string( rows ) + "x" + std::to_string( cols ) + " pattern"; }, [&]
    {
      for( int p = 0; p < ( 1 << n ); ++p )
      {
        Mat a = Mat::Zero( rows, cols ); for( int i = 0; i < n; ++i ) { if( p >> i & 1 ) { a( i % rows, i / rows ) = i + 1.5; } }
        const SparseMatrixsc A = sparse( a );
        VP_CHECK( MathUtilities::isSquare( A ) == ( rows == cols ), "isSquare" );
        for( int k = 0; k <= cols; ++k )
        {
          vp::product( std::vector<int>( size_t( k ), cols ), [&]( const std::vector<int>& sel )
          {
            std::vector<unsigned> s; for( int c : sel ) { s.push_back( unsigned( c ) ); }
            // into an empty matrix and into one that held something else
            for( int old = 0; old < 2; ++old )
            {
              SparseMatrixsc R; if( old ) { R = sparse( Mat::Constant( 4, 2, 7.0 ) ); }
              MathUtilities::extractColumns( A, s, R );
              vp::transition();
              VP_CHECK( R.rows() == rows && R.cols() == k && R.isCompressed(), "size" );
              const Mat r = R;
              for( int c = 0; c < k; ++c ) { VP_CHECK( r.col( c ) == a.col( sel[size_t( c )] ), "columns " << vp::str( sel ) << " of " << mstr( a ) << " gave " << mstr( r ) ); }
            }
          } );
        }
        vp::state( "cols" + mstr( a ) );
      }
    } );
  } }
  const std::vector<double> vals = { 0.0, 1.0, -1.0, 1.0 + 1.0e-9, 1.0e-9, 1.001, 0.001 };
  for( int first = 0; first < 7; ++first )
  {
    vp::runCase( [&]{ return "identity and symmetry tests, first entry " + std::to_string( vals[size_t( first )] ); }, [&]
    {
      for( int n = 1; n <= 3; ++n )
      {
        // n = 3: two diagonal entries are 1
        const std::vector<int> base = n == 1 ? std::vector<int>{} : n == 2 ? std::vector<int>{ 7, 7, 7 } : std::vector<int>{ 3, 3, 7, 7, 3, 3 };
        vp::product( base.empty() ? std::vector<int>{ 1 } : base, [&]( const std::vector<int>& i )
        {
          Mat a = Mat::Identity( n, n ); a( 0, 0 ) = vals[size_t( first )];
          if( n == 2 ) { a( 0, 1 ) = vals[size_t( i[0] )]; a( 1, 0 ) = vals[size_t( i[1] )]; a( 1, 1 ) = vals[size_t( i[2] )]; }
          if( n == 3 ) { a( 0, 1 ) = vals[size_t( i[0] )]; a( 1, 0 ) = vals[size_t( i[1] )]; a( 0, 2 ) = vals[size_t( i[2] )]; a( 2, 0 ) = vals[size_t( i[3] )]; a( 1, 2 ) = vals[size_t( i[4] )]; a( 2, 1 ) = vals[size_t( i[5] )]; }
          for( int stored = 0; stored < 2; ++stored )
          {
            SparseMatrixsc A = sparse( a );
            if( stored ) { for( int r = 0; r < n; ++r ) { for( int c = 0; c < n; ++c ) { A.coeffRef( r, c ) = a( r, c ); } } A.makeCompressed(); }
            const bool id = ( a - Mat::Identity( n, n ) ).cwiseAbs().maxCoeff() <= 1.0e-6, sym = ( a - a.transpose() ).cwiseAbs().maxCoeff() <= 1.0e-6;
            VP_CHECK( MathUtilities::isIdentity( A, 1.0e-6 ) == id, "isIdentity of " << mstr( a ) );
            VP_CHECK( MathUtilities::isSymmetric( A, 1.0e-6 ) == sym, "isSymmetric of " << mstr( a ) );
            vp::transition( 2 );
          }
        } );
      }
      for( int r = 1; r <= 3; ++r ) { for( int c = 1; c <= 3; ++c ) { if( r != c ) { VP_CHECK( !MathUtilities::isIdentity( sparse( Mat::Identity( r, c ) ), 1.0e-6 ), "a rectangular identity" ); } } }
    } );
  }
  {
    std::vector<Vector3s> axes;
    for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { for( int z = -1; z <= 1; ++z ) { axes.push_back( Vector3s( x, y, z ) ); } } }
    axes.push_back( Vector3s( 0.6, 0.8, 0 ) ); axes.push_back( Vector3s( -0.8, 0.6, 0 ) ); axes.push_back( Vector3s( 0.8, -0.6, 0 ) );
    axes.push_back( Vector3s( 1.0 / 3, 2.0 / 3, 2.0 / 3 ) ); axes.push_back( Vector3s( 2.0 / 3, -2.0 / 3, 1.0 / 3 ) ); axes.push_back( Vector3s( 2.0 / 3, 1.0 / 3, -2.0 / 3 ) );
    axes.push_back( Vector3s( 1.001, 0, 0 ) ); axes.push_back( Vector3s( 1, 0.001, 0 ) ); axes.push_back( Vector3s( 0, 0, 0.999 ) );
    for( size_t i = 0; i < axes.size(); ++i )
    {
      vp::runCase( [&]{ return "frames with first axis " + vp::vstr( axes[i] ); }, [&]
      {
        for( const Vector3s& b : axes )
        {
          for( const Vector3s& c : axes )
          {
            Mat f( 3, 3 ); f << axes[i], b, c;
            const bool want = ( f.transpose() * f - Mat::Identity( 3, 3 ) ).cwiseAbs().maxCoeff() <= 1.0e-4 && f.determinant() > 0.0;
            VP_CHECK( MathUtilities::isRightHandedOrthoNormal( axes[i], b, c, 1.0e-4 ) == want, "frame " << mstr( f ) );
            vp::transition();
          }
          if( axes[i].z() == 0.0 && b.z() == 0.0 )
          {
            const Vector2s p = axes[i].head<2>(), q = b.head<2>(); Mat f( 2, 2 ); f << p, q;
            const bool want = ( f.transpose() * f - Mat::Identity( 2, 2 ) ).cwiseAbs().maxCoeff() <= 1.0e-4 && f.determinant() > 0.0;
            VP_CHECK( MathUtilities::isRightHandedOrthoNormal( p, q, 1.0e-4 ) == want, "2D frame " << mstr( f ) );
            VP_CHECK( MathUtilities::cross( p, q ) == p.x() * q.y() - p.y() * q.x(), "cross product" );
          }
        }
      } );
    }
  }
  vp::runCase( []{ return std::string( "digit counts" ); }, [&]
  {
    for( unsigned i = 0; i < 200000; ++i ) { VP_CHECK( MathUtilities::computeNumDigits( i ) == std::to_string( i ).size(), "digits of " << i ); }
    for( unsigned long long p = 10; p < 4000000000ull; p *= 10 ) { for( int o = -1; o <= 1; ++o ) { const unsigned i = unsigned( p + o ); VP_CHECK( MathUtilities::computeNumDigits( i ) == std::to_string( i ).size(), "digits of " << i ); } }
    VP_CHECK( MathUtilities::computeNumDigits( 4294967295u ) == 10, "digits of the largest number" );
    vp::transition( 200030 );
  } );
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  helpers();
  residuals();
  frictionOperators();
  impactOperators();
  projectionSolver();
  largeProblems();
  return vp::finish();
}
