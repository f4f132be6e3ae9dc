// Impact and friction configurations available in each simulator, shared by the harnesses.
#ifndef MAPS_H
#define MAPS_H
#include "sys.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"

namespace sys
{
#if defined(SYS_BALL2D)
constexpr SobogusSolverType SBT = SobogusSolverType::Balls2D;
#elif defined(SYS_RB2D)
constexpr SobogusSolverType SBT = SobogusSolverType::RigidBody2D;
#else
constexpr SobogusSolverType SBT = SobogusSolverType::RigidBodies3D;
#endif

enum FS { SOBOGUS, STAGGERED, STAGGERED_WARM, STAGGERED_QL, GRRF };
inline const char* fsName( int i ) { static const char* n[] = { "sobogus", "staggered_projections", "staggered_projections_warm", "staggered_projections_ql", "grr_friction" }; return n[i]; }
inline std::unique_ptr<FrictionSolver> fsolver( int i, double tol, unsigned eval_every = 1, unsigned disk = 8, unsigned apgd_iters = 100000, double v_tol = 1.0e-9 )
{
  switch( i )
  {
    case SOBOGUS: return std::unique_ptr<FrictionSolver>( new Sobogus( SBT, eval_every ) );
    case STAGGERED: return std::unique_ptr<FrictionSolver>( new StaggeredProjections( false, false, LCPOperatorAPGD( tol, apgd_iters ), BoundConstrainedMDPOperatorQL( tol ) ) );
    case STAGGERED_WARM: return std::unique_ptr<FrictionSolver>( new StaggeredProjections( true, true, LCPOperatorAPGD( tol, apgd_iters ), BoundConstrainedMDPOperatorQL( tol ) ) );
    case STAGGERED_QL: return std::unique_ptr<FrictionSolver>( new StaggeredProjections( true, false, LCPOperatorQL( tol ), BoundConstrainedMDPOperatorQL( tol ) ) );
    default: return std::unique_ptr<FrictionSolver>( new GRRFriction( GROperator( v_tol, LCPOperatorAPGD( tol, apgd_iters ) ), LinearMDPOperatorQL( int( disk ), tol ) ) );
  }
}

enum IFM { GEO, GEO_N, GEO_NF, STAB, SE, SE_N, SE_NF, SE_S, SE_NS, SE_NFS };
inline const char* ifmName( int i ) { static const char* n[] = { "geometric", "geometric(cache normal)", "geometric(cache normal+friction)", "stabilized", "symplectic_euler", "symplectic_euler(cache normal)", "symplectic_euler(cache normal+friction)", "symplectic_euler(stabilize)", "symplectic_euler(stabilize,cache normal)", "symplectic_euler(stabilize,cache normal+friction)" }; return n[i]; }
inline bool ifmCaches( int i ) { return i == GEO_N || i == GEO_NF || i == SE_N || i == SE_NF || i == SE_NS || i == SE_NFS; }
inline bool ifmIsSE( int i ) { return i >= SE; }
inline bool ifmStabilizes( int i ) { return i == SE_S || i == SE_NS || i == SE_NFS; }
inline std::unique_ptr<ImpactFrictionMap> ifmap( int i, double tol, unsigned max_iters, double threshold = 0.0 )
{
  const ImpulsesToCache none = ImpulsesToCache::NONE, normal = ImpulsesToCache::NORMAL, both = ImpulsesToCache::NORMAL_AND_FRICTION;
  switch( i )
  {
    case GEO: return std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( tol, max_iters, none ) );
    case GEO_N: return std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( tol, max_iters, normal ) );
    case GEO_NF: return std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( tol, max_iters, both ) );
    case STAB: return std::unique_ptr<ImpactFrictionMap>( new StabilizedImpactFrictionMap( tol, max_iters, false, true ) );
    default:
      return std::unique_ptr<ImpactFrictionMap>( new SymplecticEulerImpactFrictionMap( tol, max_iters, i == SE || i == SE_S ? none : i == SE_N || i == SE_NS ? normal : both, i >= SE_S, threshold ) );
  }
}
}
#endif
