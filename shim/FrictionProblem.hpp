// Stand-in for So-bogus (a third-party header library that get_dependencies.sh downloads and that is
// not available offline). It provides the handful of types scisim's bogus interfaces use, with dense
// storage and a deterministic block Gauss-Seidel whose per-contact Coulomb problem is solved by case
// analysis (take-off / stick / slide). Everything on scisim's side of the interface is the real code.
#ifndef VERIF_SOBOGUS_SHIM
#define VERIF_SOBOGUS_SHIM
#include <Eigen/Dense>
#include <vector>
#include <cmath>
#include <cassert>
#include <iostream>
#include <cstdlib>
#include <algorithm>

namespace bogus
{

struct ShimBlockMatrix
{
  explicit ShimBlockMatrix( int d ) : def( d ) {}
  int def;
  int rb = -1, cb = -1, rd = 0, cd = 0;
  Eigen::MatrixXd D;
  void reserve( unsigned ) {}
  void setRows( unsigned n ) { setRows( n, unsigned( def ) ); }
  void setCols( unsigned n ) { setCols( n, unsigned( def ) ); }
  void setRows( unsigned n, unsigned d ) { rb = int( n ); rd = int( d ); alloc(); }
  void setCols( unsigned n, unsigned d ) { cb = int( n ); cd = int( d ); alloc(); }
  void alloc() { if( rb >= 0 && cb >= 0 ) { D.setZero( rb * rd, cb * cd ); } }
  Eigen::Block<Eigen::MatrixXd> insert( int i, int j )
  {
    if( i < 0 || j < 0 || i >= rb || j >= cb ) { std::cerr << "So-bogus stand-in: block index out of range" << std::endl; std::abort(); }
    return D.block( i * rd, j * cd, rd, cd );
  }
  Eigen::Block<Eigen::MatrixXd> insertBack( int i, int j ) { return insert( i, j ); }
  void finalize() {}
  void cacheTranspose() {}
  Eigen::MatrixXd transpose() const { return D.transpose(); }
  int rowsOfBlocks() const { return rb; }
  Eigen::Index cols() const { return D.cols(); }
  Eigen::Index rows() const { return D.rows(); }
};

inline Eigen::VectorXd operator*( const ShimBlockMatrix& A, const Eigen::VectorXd& x ) { return A.D * x; }

template<unsigned Dimension> struct PrimalFrictionProblem
{
  PrimalFrictionProblem() : M( 0 ), E( Dimension ), H( Dimension ), MInv( 0 ) {}
  ShimBlockMatrix M, E, H, MInv;
  const double* f = nullptr;
  const double* w = nullptr;
  const double* mu = nullptr;
  void computeMInv()
  {
    MInv.D = Eigen::MatrixXd::Zero( M.D.rows(), M.D.cols() );
    for( int b = 0; b < M.rb; ++b )
    {
      MInv.D.block( b * M.rd, b * M.cd, M.rd, M.cd ) = M.D.block( b * M.rd, b * M.cd, M.rd, M.cd ).inverse();
    }
  }
};

struct ShimColoring
{
  std::vector<std::size_t> permutation;
  template<typename W> void update( bool, const W& ) {}
  void resetPermutation() {}
};

struct ShimGaussSeidel
{
  double tol = 1.0e-6;
  unsigned maxIters = 250;
  unsigned evalEvery = 25;
  bool inf = true;
  ShimColoring col;
  void setTol( double t ) { tol = t; }
  void setMaxIters( unsigned m ) { maxIters = m; }
  void setEvalEvery( unsigned e ) { evalEvery = e; }
  void setMaxThreads( unsigned ) {}
  void setAutoRegularization( double ) {}
  void useInfinityNorm( bool b ) { inf = b; }
  ShimColoring& coloring() { return col; }
  const void* matrix = nullptr;
  template<typename W> void setMatrix( const W& w ) { matrix = &w; }
};

template<unsigned Dimension> struct DualFrictionProblem
{
  using GaussSeidelType = ShimGaussSeidel;
  DualFrictionProblem() : W( Dimension ) {}
  ShimBlockMatrix W;
  Eigen::VectorXd b;
  std::vector<double> mu;

  void computeFrom( const PrimalFrictionProblem<Dimension>& p )
  {
    const int nc = p.H.rowsOfBlocks();
    W.setRows( unsigned( nc ) ); W.setCols( unsigned( nc ) );
    W.D = p.H.D * p.MInv.D * p.H.D.transpose();
    b = p.E.D.transpose() * Eigen::VectorXd::Map( p.w, nc * int( Dimension ) ) - p.H.D * ( p.MInv.D * Eigen::VectorXd::Map( p.f, p.H.cols() ) );
    mu.assign( p.mu, p.mu + nc );
  }
  void undoPermutation() {}
  void applyPermutation( const std::vector<std::size_t>& ) {}

  static Eigen::VectorXd projectCone( const Eigen::VectorXd& x, double m )
  {
    const double n = x( 0 );
    const Eigen::VectorXd t = x.tail( Dimension - 1 );
    const double nt = t.norm();
    if( n >= 0.0 && nt <= m * n ) { return x; }
    if( m * nt <= -n ) { return Eigen::VectorXd::Zero( Dimension ); }
    Eigen::VectorXd r( Dimension );
    const double a = ( n + m * nt ) / ( 1.0 + m * m );
    r( 0 ) = a;
    if( nt > 0.0 ) { r.tail( Dimension - 1 ) = ( m * a / nt ) * t; } else { r.tail( Dimension - 1 ).setZero(); }
    return r;
  }

  double residual( const Eigen::VectorXd& r ) const
  {
    double err = 0.0;
    const Eigen::VectorXd u = W.D * r + b;
    for( std::size_t c = 0; c < mu.size(); ++c )
    {
      Eigen::VectorXd uc = u.segment<Dimension>( Dimension * c );
      const Eigen::VectorXd rc = r.segment<Dimension>( Dimension * c );
      uc( 0 ) += mu[c] * uc.tail( Dimension - 1 ).norm();
      err = std::max( err, ( rc - projectCone( rc - uc, mu[c] ) ).template lpNorm<Eigen::Infinity>() );
    }
    return err;
  }

  // Exact solution of the one-contact Coulomb problem u = A r + q
  static Eigen::VectorXd solveLocal( const Eigen::MatrixXd& A, const Eigen::VectorXd& q, double m )
  {
    if( q( 0 ) >= 0.0 ) { return Eigen::VectorXd::Zero( Dimension ); }
    if( m == 0.0 )
    {
      Eigen::VectorXd r = Eigen::VectorXd::Zero( Dimension );
      r( 0 ) = - q( 0 ) / A( 0, 0 );
      return r;
    }
    {
      const Eigen::VectorXd r = A.ldlt().solve( -q );
      if( r( 0 ) >= 0.0 && r.tail( Dimension - 1 ).norm() <= m * r( 0 ) ) { return r; }
    }
    // Sliding: r_T = - m r_N d, u_N = 0, u_T parallel to and along d
    auto trial = [&]( const Eigen::VectorXd& d, Eigen::VectorXd& r, Eigen::VectorXd& u ) -> bool
    {
      const double den = A( 0, 0 ) - m * A.row( 0 ).tail( Dimension - 1 ).dot( d );
      if( den <= 0.0 ) { return false; }
      r.resize( Dimension );
      r( 0 ) = - q( 0 ) / den;
      r.tail( Dimension - 1 ) = - m * r( 0 ) * d;
      u = A * r + q;
      return true;
    };
    Eigen::VectorXd r, u;
    if( Dimension == 2 )
    {
      for( double s : { 1.0, -1.0 } )
      {
        Eigen::VectorXd d( 1 ); d << s;
        if( trial( d, r, u ) && u( 1 ) * s >= -1.0e-15 ) { return r; }
      }
    }
    else
    {
      auto cross = [&]( double th, double& dot, Eigen::VectorXd& rr ) -> double
      {
        Eigen::VectorXd d( Dimension - 1 ); d( 0 ) = std::cos( th ); d( Dimension - 2 ) = std::sin( th );
        Eigen::VectorXd uu;
        if( !trial( d, rr, uu ) ) { dot = -1.0; return std::nan( "" ); }
        dot = uu( 1 ) * d( 0 ) + uu( Dimension - 1 ) * d( Dimension - 2 );
        return uu( 1 ) * d( Dimension - 2 ) - uu( Dimension - 1 ) * d( 0 );
      };
      const int N = 64;
      const double two_pi = 6.283185307179586476925286766559;
      for( int i = 0; i < N; ++i )
      {
        double a = two_pi * ( i - 0.37 ) / N, c = two_pi * ( i + 1 - 0.37 ) / N, da, dc;
        double fa = cross( a, da, r ), fc = cross( c, dc, r );
        if( std::isnan( fa ) || std::isnan( fc ) || fa * fc > 0.0 ) { continue; }
        for( int k = 0; k < 200; ++k )
        {
          const double h = 0.5 * ( a + c ); double dh;
          const double fh = cross( h, dh, r );
          if( fa * fh <= 0.0 ) { c = h; fc = fh; } else { a = h; fa = fh; }
        }
        double dh; cross( 0.5 * ( a + c ), dh, r );
        if( dh >= 0.0 ) { return r; }
      }
    }
    Eigen::VectorXd z = Eigen::VectorXd::Zero( Dimension );
    z( 0 ) = - q( 0 ) / A( 0, 0 );
    return z;
  }

  double solveWith( GaussSeidelType& gs, double* r_data, unsigned& num_iterations, const bool ) const
  {
    Eigen::Map<Eigen::VectorXd> r( r_data, b.size() );
    Eigen::VectorXd x = r;
    const int nc = int( mu.size() );
    double err = residual( x );
    Eigen::VectorXd best = x;
    double best_err = err;
    num_iterations = 0;
    const unsigned every = gs.evalEvery == 0 ? 1 : gs.evalEvery;
    while( best_err >= gs.tol && num_iterations < gs.maxIters )
    {
      for( int c = 0; c < nc; ++c )
      {
        const Eigen::MatrixXd A = W.D.block( Dimension * c, Dimension * c, Dimension, Dimension );
        const Eigen::VectorXd q = W.D.middleRows( Dimension * c, Dimension ) * x + b.segment<Dimension>( Dimension * c ) - A * x.segment<Dimension>( Dimension * c );
        x.segment<Dimension>( Dimension * c ) = solveLocal( A, q, mu[c] );
      }
      ++num_iterations;
      if( num_iterations % every == 0 || num_iterations == gs.maxIters )
      {
        err = residual( x );
        if( err < best_err ) { best_err = err; best = x; }
      }
    }
    r = best;
    return residual( best );
  }

  double evalWith( GaussSeidelType& gs, const double* r_data ) const
  {
    assert( gs.matrix == &W ); // the library evaluates with the matrix the solver was given
    return residual( Eigen::VectorXd::Map( r_data, b.size() ) );
  }
};

}
#endif
