// Specification units: local solver for the bilaplacian on unit hypercubes.
//@headers local_solver/bilaplacian_uniform_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref2.hxx"
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
//@unit P25 biuniform<{d},{p}> d=1,2 p=0,1,2 if=(d+p<4)
template <uint D, uint p> void biuniform()
{
  vp_lapack_ok();
  typedef Ref2<D, p, 2 * p, D, false> R;
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);
  const LocalSolver::BilaplacianUniform<D, p, 2 * p> s(tau);
  Edge<D, D> e;
  e.geometry = unit<D>();
  for (uint f = 0; f < 2 * D; ++f)
    e.node_descriptor.t[f] = 0;
  const auto lam = R::lam("lambda");
  auto out = R::lam("rubbish");
  s.trace_to_flux(lam, out, time);
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, time);
  R::sameL("flux", out, R::flux(e, tau, x, lam, true));
  auto out2 = R::lam("rubbish");
  s.residual_flux(lam, out2, time);
  R::sameL("residual flux", out2, out);
}
//@unit P29 biuniform_bulk<{d},{p}> d=1,2 p=0,1,2 if=(d+p<4)
template <uint D, uint p> void biuniform_bulk()
{
  vp_lapack_ok();
  typedef Ref2<D, p, 2 * p, D, false> R;
  const double tau = vp_in_d("tau", 0);
  const LocalSolver::BilaplacianUniform<D, p, 2 * p> s(tau);
  auto g = unit<D>();
  const auto lam = R::lam("lambda");
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam), ab, R::from_lambda(g, tau, lam) / R::matrix(g, tau, 0.));
}
//@unit P24 biuniform_fail<{d},{p}> mode=ndebug d=1,2 p=0,1,2 if=(d+p<4)
template <uint D, uint p> void biuniform_fail()
{
  vp_lapack_fail();
  typedef Ref2<D, p, 2 * p, D, false> R;
  const LocalSolver::BilaplacianUniform<D, p, 2 * p> s(vp_in_d("tau", 0));
  const auto lam = R::lam("lambda");
  auto out = R::lam("rubbish");
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out))
  MUST_THROW(s.residual_flux(lam, out))
  MUST_THROW(s.bulk_values(ab, lam))
  accumulate<LocalSolver::BilaplacianUniform<D, p, 2 * p> >();
}
