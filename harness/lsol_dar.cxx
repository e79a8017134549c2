// Specification units: local solver for the diffusion-advection-reaction equation.
//@headers local_solver/diffusion_advection_reaction_ldg.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::DiffusionAdvectionReaction<D, p, q, Par, double>;
// as the diffusion equation, with  (q/kappa, w) - (u, div w) - (u b, w) = ...  and the term (r u, v) in the conservation law
template <uint D, uint p, uint q, uint S> typename Ref<D, p, q, S>::M matrix(Geo<D, S>& g, double tau, double time)
{
  typedef Ref<D, p, q, S> R;
  typedef Par<S, double> Q;
  auto m = R::matrix(g, tau, time);
  for (uint i = 0; i < R::n; ++i)
    for (uint j = 0; j < R::n; ++j)
    {
      m(D * R::n + i, D * R::n + j) += R::I::template integrate_vol_phiphifunc<typename R::P, typename R::G, Q::reaction_rate>(i, j, g, time);
      for (uint d = 0; d < D; ++d)
        m(d * R::n + i, D * R::n + j) -= R::I::template integrate_vol_phiphivecfunc<typename R::P, typename R::G, Q::advective_velocity>(i, j, d, g, time);
    }
  return m;
}
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref<D, p, q, S> R;                                           \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = lam_in<D, R::nb>("lambda");                         \
  auto out = lam_in<D, R::nb>("rubbish");                              \
  const auto m = matrix<D, p, q, S>(e.geometry, tau, time);            \
  const auto l = R::from_lambda(e.geometry, tau, lam);

//@unit P25 dar_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=2,4 s=1,2 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))
//@unit P25 dar_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 dar_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void dar_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  same<D, R::nb>("flux", out, R::flux(e, tau, l / m, lam));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  same<D, R::nb>("residual flux", out2, R::flux(e, tau, (l + R::from_data(e, tau, time)) / m, lam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
//@unit P25 dar_mass<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and((d==1)or(p<1))
template <uint D, uint p, uint q, uint S> void dar_mass()
{
  COMMON
  const Loc<D, R::nb> zero{};
  s.trace_to_mass_flux(lam, out, e, time);
  same<D, R::nb>("mass flux", out, R::flux(e, tau, R::from_coeffs(e.geometry, l / m) / m, zero));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.total_numerical_flux_mass(lam, out2, e, time);
  same<D, R::nb>("residual mass flux", out2, R::flux(e, tau, R::from_coeffs(e.geometry, (l + R::from_data(e, tau, time)) / m) / m, zero));
  unchanged(e);
}
//@unit P29 dar_values<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2 if=(d<=s)and(q==2*p)and((d==1)or(p<2))
//@unit P29 dar_values<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P29 dar_values<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void dar_values()
{
  COMMON
  const typename R::V x = (l + R::from_data(e, tau, time)) / m;
  vp_eq_d("error", 0, s.errors(lam, e, time)[0], R::error(e.geometry, x, time));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  unchanged(e);
}
//@unit P24 dar_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void dar_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
  MUST_THROW(s.trace_to_mass_flux(lam, out, e, time))
  MUST_THROW(s.total_numerical_flux_mass(lam, out, e, time))
}
//@unit P24 dar_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void dar_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
