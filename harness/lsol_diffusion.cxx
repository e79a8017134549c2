// Specification units: local solver for the diffusion equation.
//@headers local_solver/diffusion_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::Diffusion<D, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref<D, p, q, S> R;                                           \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = lam_in<D, R::nb>("lambda");                         \
  auto out = lam_in<D, R::nb>("rubbish");

//@unit P25 diffusion_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=1,2,3,4 s=1,2,3 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 diffusion_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 diffusion_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 diffusion_flux<{d},{p},{q},{s}> tier=thorough d=2 p=2 q=4 s=2
template <uint D, uint p, uint q, uint S> void diffusion_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(e.geometry, tau, time);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  same<D, R::nb>("flux", out, R::flux(e, tau, l / m, lam));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  same<D, R::nb>("residual flux", out2, R::flux(e, tau, (l + R::from_data(e, tau, time)) / m, lam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
//@unit P25 diffusion_mass<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2,3 if=(d<=s)and(q==2*p)and((d==1)or(p<2))and((s<3)or(d==2))and((s<3)or(d<2)or(p<1))
//@unit P25 diffusion_mass<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 diffusion_mass<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void diffusion_mass()
{
  COMMON
  const Loc<D, R::nb> zero{};
  const auto m = R::matrix(e.geometry, tau, time);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  s.trace_to_mass_flux(lam, out, e, time);
  same<D, R::nb>("mass flux", out, R::flux(e, tau, R::from_coeffs(e.geometry, l / m) / m, zero));
  unchanged(e);
}
//@unit P29 diffusion_values<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2,3 if=(d<=s)and(q==2*p)and((d==1)or(p<2))and((s<3)or(d==2))and((s<3)or(d<2)or(p<1))
//@unit P29 diffusion_values<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P29 diffusion_values<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void diffusion_values()
{
  COMMON
  const typename R::V x = (R::from_lambda(e.geometry, tau, lam) + R::from_data(e, tau, time)) / R::matrix(e.geometry, tau, time);
  vp_eq_d("error", 0, s.errors(lam, e, time)[0], R::error(e.geometry, x, time));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  unchanged(e);
}
//@unit P24 diffusion_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void diffusion_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
  MUST_THROW(s.trace_to_mass_flux(lam, out, e, time))
  MUST_THROW(s.total_numerical_flux_mass(lam, out, e, time))
}
//@unit P24 diffusion_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void diffusion_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
