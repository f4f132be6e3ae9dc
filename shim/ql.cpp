// Stand-in for QL (K. Schittkowski's Fortran QP solver, not redistributable and not available offline):
//   minimise 1/2 x'Cx + d'x  subject to  Ax + b >= 0,  xl <= x <= xu
// by a dense primal-dual interior point method. u holds the multipliers of A, xl and xu, in that order.
#include <Eigen/Dense>
#include <vector>
#include <cmath>
#include <limits>

static void interior( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps,
                     int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar )
{
  using R = long double; using V = Eigen::Matrix<R,Eigen::Dynamic,1>; using M = Eigen::Matrix<R,Eigen::Dynamic,Eigen::Dynamic>;
  const int N = *n, MC = *m;
  if( *me != 0 ) { *ifail = 3; return; }
  const M C = Eigen::Map<Eigen::MatrixXd,0,Eigen::OuterStride<>>( c, N, N, Eigen::OuterStride<>( *nmax ) ).cast<R>();
  const V D = Eigen::Map<Eigen::VectorXd>( d, N ).cast<R>();
  // G x >= h
  std::vector<int> which; std::vector<V> rows; std::vector<double> rhs;
  for( int i = 0; i < MC; ++i ) { V r( N ); for( int j = 0; j < N; ++j ) { r( j ) = a[ i + j * *mmax ]; } rows.push_back( r ); rhs.push_back( -b[i] ); which.push_back( i ); }
  std::vector<int> pinned;
  for( int i = 0; i < N; ++i )
  {
    if( std::isfinite( xl[i] ) ) { rows.push_back( V::Unit( N, i ) ); rhs.push_back( xl[i] ); which.push_back( MC + i ); }
    if( std::isfinite( xu[i] ) ) { rows.push_back( -V::Unit( N, i ) ); rhs.push_back( -xu[i] ); which.push_back( MC + N + i ); }
  }
  const int K = int( rows.size() );
  M G( K, N ); V h( K ); for( int i = 0; i < K; ++i ) { G.row( i ) = rows[i].transpose(); h( i ) = rhs[i]; }
  V X = V::Zero( N ), S = V::Ones( K ), Z = V::Ones( K );
  for( int i = 0; i < K; ++i ) { S( i ) = std::max<R>( 1.0, ( G * X - h )( i ) ); }
  V bX = X, bZ = Z; R best = std::numeric_limits<R>::infinity();
  auto step = []( const V& p, const V& dp ) { R t = 1.0; for( int i = 0; i < p.size(); ++i ) { if( dp( i ) < 0.0 ) { t = std::min<R>( t, -p( i ) / dp( i ) ); } } return t; };
  for( int attempt = 0; attempt < 2 && !( best < R( 1.0e-10 ) ); ++attempt )
  {
  if( attempt ) { X.setZero(); Z.setOnes(); for( int i = 0; i < K; ++i ) { S( i ) = std::max<R>( 1.0, ( G * X - h )( i ) ); } }
  for( int it = 0; it < 200; ++it )
  {
    const V rd = C * X + D - G.transpose() * Z, rp = G * X - h - S;
    const R gap = K ? S.dot( Z ) / K : R( 0 );
    const R merit = std::max( std::max( rd.lpNorm<Eigen::Infinity>(), K ? rp.lpNorm<Eigen::Infinity>() : R( 0 ) ), K ? ( S.array() * Z.array() ).abs().maxCoeff() : R( 0 ) );
    if( merit < best ) { best = merit; bX = X; bZ = Z; }
    if( rd.lpNorm<Eigen::Infinity>() < 1.0e-13 && ( K == 0 || rp.lpNorm<Eigen::Infinity>() < 1.0e-14 ) && gap < 1.0e-16 ) { break; }
    M H = C + G.transpose() * ( Z.array() / S.array() ).matrix().asDiagonal() * G;
    H.diagonal().array() += R( 1.0e-16 );
    const Eigen::LDLT<M> F( H );
    auto solve = [&]( const V& rc, V& dx, V& ds, V& dz )
    {
      // C dx - G'dz = -rd ; G dx - ds = -rp ; Z ds + S dz = rc
      dx = F.solve( -rd + G.transpose() * ( ( rc.array() - Z.array() * rp.array() ) / S.array() ).matrix() );
      ds = G * dx + rp;
      dz = ( ( rc.array() - Z.array() * ds.array() ) / S.array() ).matrix();
    };
    V dx, ds, dz;
    solve( ( -S.array() * Z.array() ).matrix(), dx, ds, dz );
    const R aff = std::min( step( S, ds ), step( Z, dz ) );
    const R mu = K ? ( S + aff * ds ).dot( Z + aff * dz ) / K : R( 0 );
    const R sig = attempt ? R( 0.2 ) : gap > 0.0 ? std::pow( mu / gap, R( 3 ) ) : R( 0 );
    const V rc = ( sig * gap - S.array() * Z.array() - ( attempt ? R( 0 ) : R( 1 ) ) * ds.array() * dz.array() ).matrix();
    solve( rc, dx, ds, dz );
    const R t = std::min<R>( 1.0, ( attempt ? R( 0.9 ) : R( 0.995 ) ) * std::min( step( S, ds ), step( Z, dz ) ) );
    if( !dx.allFinite() || !ds.allFinite() || !dz.allFinite() || t < R( 1.0e-17 ) ) { break; }
    X += t * dx; S += t * ds; Z += t * dz;
  }
  }
  X = bX; Z = bZ;
  for( int i = 0; i < N; ++i ) { x[i] = std::min( xu[i], std::max( xl[i], double( X( i ) ) ) ); }
  for( int i = 0; i < *mnn; ++i ) { u[i] = 0.0; }
  for( int i = 0; i < K; ++i ) { u[ which[i] ] = double( Z( i ) ); }
  for( int i = 0; i < N; ++i ) { double& l = u[ MC + i ]; double& r = u[ MC + N + i ]; if( l < r ) { l = 0.0; } else { r = 0.0; } }
  *ifail = 0;
}

// Unknowns with coinciding bounds, and non-negative unknowns under a row -sum(x) >= 0, have no interior: they are eliminated first.
extern "C" void ql_( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps,
                     int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar )
{
  const int N = *n, MC = *m;
  std::vector<int> rowpin( N, -2 ); // -2 free, -1 pinned by its bounds, otherwise the row
  std::vector<double> val( N, 0.0 );
  std::vector<char> dead( MC, 0 );
  for( int i = 0; i < N; ++i ) { if( xl[i] == xu[i] ) { rowpin[i] = -1; val[i] = xl[i]; } }
  for( int r = 0; r < MC; ++r )
  {
    if( b[r] != 0.0 ) { continue; }
    bool ok = true; for( int j = 0; j < N; ++j ) { const double v = a[ r + j * *mmax ]; ok = ok && v <= 0.0 && ( v == 0.0 || xl[j] == 0.0 ); }
    if( !ok ) { continue; }
    dead[r] = 1;
    for( int j = 0; j < N; ++j ) { if( a[ r + j * *mmax ] != 0.0 && rowpin[j] == -2 ) { rowpin[j] = r; } }
  }
  std::vector<int> fr, rw; for( int i = 0; i < N; ++i ) { if( rowpin[i] == -2 ) { fr.push_back( i ); } } for( int r = 0; r < MC; ++r ) { if( !dead[r] ) { rw.push_back( r ); } }
  if( int( fr.size() ) == N && int( rw.size() ) == MC ) { interior( m, me, mmax, n, nmax, mnn, c, d, a, b, xl, xu, x, u, eps, mode, iout, ifail, iprint, war, lwar, iwar, liwar ); return; }
  int n2 = int( fr.size() ), m2 = int( rw.size() ), mn2 = m2 + 2 * n2, mm2 = m2 > 0 ? m2 : 1;
  std::vector<double> c2( n2 * n2 ), d2( n2 ), a2( mm2 * n2 ), b2( m2 ), l2( n2 ), u2( n2 ), x2( n2 ), w2( mn2 );
  for( int i = 0; i < n2; ++i )
  {
    d2[i] = d[ fr[i] ]; l2[i] = xl[ fr[i] ]; u2[i] = xu[ fr[i] ];
    for( int j = 0; j < N; ++j ) { if( rowpin[j] != -2 ) { d2[i] += c[ fr[i] + j * *nmax ] * val[j]; } }
    for( int j = 0; j < n2; ++j ) { c2[ i + j * n2 ] = c[ fr[i] + fr[j] * *nmax ]; }
    for( int r = 0; r < m2; ++r ) { a2[ r + i * mm2 ] = a[ rw[r] + fr[i] * *mmax ]; }
  }
  for( int r = 0; r < m2; ++r ) { b2[r] = b[ rw[r] ]; for( int j = 0; j < N; ++j ) { if( rowpin[j] != -2 ) { b2[r] += a[ rw[r] + j * *mmax ] * val[j]; } } }
  *ifail = 0;
  if( n2 > 0 ) { interior( &m2, me, &mm2, &n2, &n2, &mn2, c2.data(), d2.data(), a2.data(), b2.data(), l2.data(), u2.data(), x2.data(), w2.data(), eps, mode, iout, ifail, iprint, war, lwar, iwar, liwar ); }
  for( int i = 0; i < N; ++i ) { x[i] = val[i]; } for( int i = 0; i < n2; ++i ) { x[ fr[i] ] = x2[i]; }
  for( int i = 0; i < *mnn; ++i ) { u[i] = 0.0; }
  for( int r = 0; r < m2; ++r ) { u[ rw[r] ] = w2[r]; }
  for( int i = 0; i < n2; ++i ) { u[ MC + fr[i] ] = w2[ m2 + i ]; u[ MC + N + fr[i] ] = w2[ m2 + n2 + i ]; }
  std::vector<double> g( N ); for( int i = 0; i < N; ++i ) { g[i] = d[i]; for( int j = 0; j < N; ++j ) { g[i] += c[ i + j * *nmax ] * x[j]; } for( int r : rw ) { g[i] -= a[ r + i * *mmax ] * u[r]; } }
  for( int r = 0; r < MC; ++r ) { if( dead[r] ) { for( int i = 0; i < N; ++i ) { const double v = a[ r + i * *mmax ]; if( v != 0.0 && g[i] < 0.0 && g[i] / v > u[r] ) { u[r] = g[i] / v; } } } }
  for( int i = 0; i < N; ++i ) { if( rowpin[i] != -2 ) { double w = g[i]; for( int r = 0; r < MC; ++r ) { if( dead[r] ) { w -= a[ r + i * *mmax ] * u[r]; } } if( w > 0.0 ) { u[ MC + i ] = w; } else { u[ MC + N + i ] = -w; } } }
}
