// Specification units: local solver for the Laplacian on unit hypercubes.
//@headers local_solver/diffusion_uniform_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>

//@unit P25 uniform_flux<{d},{p}> d=1,2 p=1,2 if=(d+p<4)
template <uint D, uint p> void uniform_flux()
{
  vp_lapack_ok();
  typedef LocalSolver::DiffusionUniform<D, p, 2 * p> Sol;
  typedef Ref<D, p, 2 * p, D, false> R;
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);
  const Sol s(tau);
  Edge<D, D> e;
  e.geometry = unit<D>();
  for (uint f = 0; f < 2 * D; ++f)
    e.node_descriptor.t[f] = 0;
  const auto lam = lam_in<D, R::nb>("lambda");
  auto out = lam_in<D, R::nb>("rubbish");
  s.trace_to_flux(lam, out, time);
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, time);
  same<D, R::nb>("flux", out, R::flux(e, tau, x, lam));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, time);
  same<D, R::nb>("residual flux", out2, out);
}
//@unit P29 uniform_bulk<{d},{p}> d=1,2 p=1,2 if=(d+p<4)
template <uint D, uint p> void uniform_bulk()
{
  vp_lapack_ok();
  typedef Ref<D, p, 2 * p, D, false> R;
  const double tau = vp_in_d("tau", 0);
  const LocalSolver::DiffusionUniform<D, p, 2 * p> s(tau);
  auto g = unit<D>();
  const auto lam = lam_in<D, R::nb>("lambda");
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  const auto v = s.bulk_values(ab, lam);
  R::template bulk<2>("bulk value", v, ab, R::from_lambda(g, tau, lam) / R::matrix(g, tau, 0.));
}
//@unit P24 uniform_fail<{d},{p}> mode=ndebug d=1,2 p=1,2 if=(d+p<4)
template <uint D, uint p> void uniform_fail()
{
  vp_lapack_fail();
  typedef Ref<D, p, 2 * p, D, false> R;
  const LocalSolver::DiffusionUniform<D, p, 2 * p> s(vp_in_d("tau", 0));
  const auto lam = lam_in<D, R::nb>("lambda");
  auto out = lam_in<D, R::nb>("rubbish");
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out))
  MUST_THROW(s.residual_flux(lam, out))
  MUST_THROW(s.bulk_values(ab, lam))
  accumulate<LocalSolver::DiffusionUniform<D, p, 2 * p> >();
}
