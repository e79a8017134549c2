// Specification units: local solver for the bilaplacian.
//@headers local_solver/bilaplacian_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref2.hxx"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::Bilaplacian<D, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref2<D, p, q, S> R;                                          \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = R::lam("lambda");                                   \
  auto out = R::lam("rubbish");
//@unit P25 bilap_flux<{d},{p},{q},{s}> d=1,2 p=0,1 q=1,2 s=1,2 if=(d<=s)and(q>=2*p)and(d+p<3)
//@unit P25 bilap_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 bilap_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void bilap_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(e.geometry, tau, time);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  R::sameL("flux", out, R::flux(e, tau, l / m, lam));
  auto out2 = R::lam("rubbish");
  s.residual_flux(lam, out2, e, time);
  R::sameL("residual flux", out2, R::flux(e, tau, (l + R::from_data(e, tau, time)) / m, lam));
  R::sameL("traces unchanged", lam, R::lam("lambda"));
  unchanged(e);
}
//@unit P25 bilap_mass<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void bilap_mass()
{
  COMMON
  const typename R::L zero{};
  const auto m = R::matrix(e.geometry, tau, time);
  s.trace_to_mass_flux(lam, out, e, time);
  R::sameL("mass flux", out, R::flux(e, tau, R::from_coeffs(e.geometry, R::from_lambda(e.geometry, tau, lam) / m) / m, zero));
  unchanged(e);
}
//@unit P29 bilap_values<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void bilap_values()
{
  COMMON
  const typename R::V x = (R::from_lambda(e.geometry, tau, lam) + R::from_data(e, tau, time)) / R::matrix(e.geometry, tau, time);
  vp_eq_d("error", 0, s.errors(lam, e, time)[0], R::error(e.geometry, x, time));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  unchanged(e);
}
//@unit P24 bilap_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void bilap_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
  MUST_THROW(s.trace_to_mass_flux(lam, out, e, time))
  MUST_THROW(s.total_numerical_flux_mass(lam, out, e, time))
}
//@unit P24 bilap_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void bilap_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
