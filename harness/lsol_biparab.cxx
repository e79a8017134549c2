// Specification units: local solver for the parabolic bilaplacian problem (implicit Euler).
//@headers local_solver/bilaplacian_parab_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref2.hxx"
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::BilaplacianParab<D, p, q, Par, double>;
template <uint D, uint p, uint q, uint S> using Ed = Edge<D, S, typename Sol<D, p, q>::data_type>;
#define COMMON                                                                              \
  vp_lapack_ok();                                                                           \
  typedef Ref2<D, p, q, S> R;                                                               \
  const double tau = vp_in_d("tau", 0), theta = 1., dt = vp_in_d("dt", 0), time = vp_in_d("time", 0); \
  const Sol<D, p, q> s(std::vector<double>{tau, theta, dt});                                \
  Ed<D, p, q, S> e;                                                                         \
  for (uint i = 0; i < R::N; ++i)                                                           \
    e.data.coeffs[i] = vp_in_d("old solution", i);                                          \
  auto& g = e.geometry;                                                                     \
  const auto lam = R::lam("lambda");                                                        \
  auto out = R::lam("rubbish");
// one step of the implicit Euler method
template <class R, class E> typename R::V step_rhs(E& e, double tau, double dt, double time)
{
  typename R::V old;
  for (uint i = 0; i < R::N; ++i)
    old[i] = vp_in_d("old solution", i);
  return R::from_data(e, tau, time, dt) + R::from_coeffs(e.geometry, old);
}
//@unit P25 biparab_flux<{d},{p},{q},{s}> d=1,2 p=0,1 q=1,2 s=1,2 if=(d<=s)and(q>=2*p)and(d+p<3)
//@unit P25 biparab_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 biparab_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void biparab_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(g, tau, time, 1., dt);
  const auto l = R::from_lambda(g, tau, lam, dt);
  R::sameL("flux", out, R::flux(e, tau, l / m, lam));
  auto out2 = R::lam("rubbish");
  s.residual_flux(lam, out2, e, time);
  const typename R::V x = (l + step_rhs<R>(e, tau, dt, time)) / m;
  R::sameL("residual flux", out2, R::flux(e, tau, x, lam));
  for (uint i = 0; i < R::N; ++i)
    vp_eq_d("data unchanged", i, e.data.coeffs[i], vp_in_d("old solution", i));
  s.set_data(lam, e, time);
  for (uint i = 0; i < R::n; ++i)
    vp_eq_d("stored solution", i, e.data.coeffs[D * R::n + i], x[D * R::n + i]);
  R::sameL("traces unchanged", lam, R::lam("lambda"));
  unchanged(e);
}
//@unit P29 biparab_values<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void biparab_values()
{
  COMMON
  auto lam2 = lam;
  const typename R::V x = (R::from_lambda(g, tau, lam, dt) + step_rhs<R>(e, tau, dt, time)) / R::matrix(g, tau, time, 1., dt);
  vp_eq_d("error", 0, s.errors(lam2, e, time)[0], R::error(e.geometry, x, time));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  R::sameL("traces unchanged", lam2, lam);
  unchanged(e);
}
//@unit P29 biparab_initial<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)
template <uint D, uint p, uint q, uint S> void biparab_initial()
{
  COMMON
  s.make_initial(out, e, time);
  R::initial(e, out, time);
  for (uint i = 0; i < R::n; ++i)
    vp_eq_d("initial solution", i, e.data.coeffs[D * R::n + i], R::R::project_initial(g, i, time));
  unchanged(e);
}
//@unit P24 biparab_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void biparab_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.set_data(lam, e, time))
}
//@unit P24 biparab_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void biparab_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
}
