// Specification units: local solver for the heat equation (theta scheme).
//@headers local_solver/diffusion_parab_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::DiffusionParab<D, p, q, Par, double>;
template <uint D, uint p, uint q, uint S> using Ed = Edge<D, S, typename Sol<D, p, q>::data_type>;
template <class R, class E> void old_data(E& e)
{
  for (uint i = 0; i < R::n; ++i)
  {
    e.data.u_old[i] = vp_in_d("old solution", i);
    e.data.flux_old[i] = vp_in_d("old residual", i);
  }
  for (uint f = 0; f < 2 * R::dim; ++f)
    for (uint j = 0; j < R::nb; ++j)
      e.data.boundary_flux_old(j, f) = vp_in_d("old flux", f * R::nb + j);
}
template <class R, class E> void data_unchanged(E& e)
{
  E x{};
  old_data<R>(x);
  for (uint i = 0; i < R::n; ++i)
  {
    vp_eq_d("data unchanged: solution", i, e.data.u_old[i], x.data.u_old[i]);
    vp_eq_d("data unchanged: residual", i, e.data.flux_old[i], x.data.flux_old[i]);
  }
  for (uint f = 0; f < 2 * R::dim; ++f)
    for (uint j = 0; j < R::nb; ++j)
      vp_eq_d("data unchanged: flux", f * R::nb + j, e.data.boundary_flux_old(j, f), x.data.boundary_flux_old(j, f));
}
#define COMMON                                                                              \
  vp_lapack_ok();                                                                           \
  typedef Ref<D, p, q, S> R;                                                                \
  const double tau = vp_in_d("tau", 0), theta = vp_in_d("theta", 0), dt = vp_in_d("dt", 0), time = vp_in_d("time", 0); \
  const Sol<D, p, q> s(std::vector<double>{tau, theta, dt});                                \
  Ed<D, p, q, S> e;                                                                         \
  old_data<R>(e);                                                                           \
  auto& g = e.geometry;                                                                     \
  const auto lam = lam_in<D, R::nb>("lambda");                                              \
  auto out = lam_in<D, R::nb>("rubbish");

// right-hand side of one step of the theta scheme
template <class R, class E> typename R::V step_rhs(E& e, double tau, double theta, double dt, double time)
{
  typename R::V r = R::from_data(e, tau, time, theta * dt);
  for (uint i = 0; i < R::n; ++i)
  {
    double& x = r[R::dim * R::n + i];
    x += e.geometry.area_ * e.data.u_old[i] + dt * (1. - theta) * e.data.flux_old[i];
    for (uint f = 0; f < 2 * R::dim; ++f)
      if (e.dir(f))
        x += dt * (1. - theta) * tau * R::boundary_data(e.geometry, i, f, time - dt);
  }
  return r;
}
//@unit P25 parab_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=1,2,3,4 s=1,2,3 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 parab_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 parab_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void parab_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(g, tau, time, 1., theta * dt);
  const auto l = R::from_lambda(g, tau, lam, theta * dt);
  auto want = R::flux(e, tau, l / m, lam);
  for (auto& w : want)
    for (double& x : w)
      x *= theta;
  same<D, R::nb>("flux", out, want);
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  want = R::flux(e, tau, (l + step_rhs<R>(e, tau, theta, dt, time)) / m, lam);
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < R::nb; ++j)
      want[f][j] = e.dir(f) ? 0. : theta * want[f][j] + (1. - theta) * e.data.boundary_flux_old(j, f);
  same<D, R::nb>("residual flux", out2, want);
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
  data_unchanged<R>(e);
}
// what a step leaves for the next one: solution, residual of the conservation law, numerical flux
template <class R, class E> void stored(const E& e, E& x, const typename R::V& sol, const typename R::L& lam, double tau, double time)
{
  constexpr uint D = R::dim, n = R::n;
  auto& g = x.geometry;
  const auto flux = R::flux(x, tau, sol, lam);
  for (uint i = 0; i < n; ++i)
  {
    vp_eq_d("stored solution", i, e.data.u_old[i], sol[D * n + i]);
    double r = R::source(g, i, time);
    for (uint j = 0; j < n; ++j)
    {
      for (uint d = 0; d < D; ++d)
        for (uint k = 0; k < D; ++k)
          r += sol[d * n + j] * g.grad[d][k] * R::I::integrate_vol_Dphiphi(i, j, k) * g.area_;
      for (uint f = 0; f < 2 * D; ++f)
      {
        const double b = R::I::integrate_bdr_phiphi(i, j, f) * g.farea[f];
        r -= tau * sol[D * n + j] * b;
        for (uint d = 0; d < D; ++d)
          r -= g.nor[f][d] * sol[d * n + j] * b;
      }
    }
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < R::nb; ++j)
        r += tau * lam[f][j] * R::I::integrate_bdr_phipsi(i, j, f) * g.farea[f];
    vp_eq_d("stored residual", i, e.data.flux_old[i], r);
  }
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < R::nb; ++j)
      vp_eq_d("stored flux", f * R::nb + j, e.data.boundary_flux_old(j, f), flux[f][j]);
}
//@unit P25 parab_step<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=1,2,4 s=1,2,3 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 parab_step<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 parab_step<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void parab_step()
{
  COMMON
  Ed<D, p, q, S> x;
  old_data<R>(x);
  const typename R::V sol = (R::from_lambda(g, tau, lam, theta * dt) + step_rhs<R>(x, tau, theta, dt, time)) / R::matrix(g, tau, time, 1., theta * dt);
  s.set_data(lam, e, time);
  stored<R>(e, x, sol, lam, tau, time);
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
//@unit P25 parab_initial<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=1,2,4 s=1,2,3 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 parab_initial<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 parab_initial<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void parab_initial()
{
  COMMON
  constexpr uint n = R::n;
  Ed<D, p, q, S> x;
  s.make_initial(out, e, time);
  const auto init = R::initial(e, time);
  same<D, R::nb>("initial trace", out, init);
  // u: L2 projection; q/kappa = -grad u in the weak sense with the exact initial value
  typename R::V sol;
  SmallSquareMat<n, double> mass_;
  const auto& mass = mass_;
  for (uint i = 0; i < n; ++i)
  {
    sol[D * n + i] = R::project_initial(g, i, time);
    for (uint j = 0; j < n; ++j)
      mass_(i, j) = R::resist(g, i, j, time);
  }
  for (uint d = 0; d < D; ++d)
  {
    SmallVec<n, double> r;
    for (uint i = 0; i < n; ++i)
      r[i] = R::weak_gradient(g, i, d, time);
    const SmallVec<n, double> qd = r / mass;
    for (uint i = 0; i < n; ++i)
      sol[d * n + i] = qd[i];
  }
  stored<R>(e, x, sol, init, tau, time);
  unchanged(e);
}
//@unit P29 parab_values<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2,3 if=(d<=s)and(q==2*p)and((d==1)or(p<2))and((s<3)or(d==2))and((s<3)or(d<2)or(p<1))
//@unit P29 parab_values<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P29 parab_values<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void parab_values()
{
  COMMON
  typename R::V old;
  for (uint i = 0; i < R::n; ++i)
    old[D * R::n + i] = e.data.u_old[i];
  vp_eq_d("error of the stored solution", 0, s.errors(lam, e, time)[0], R::error(g, old, time));
  const typename R::V x = (R::from_lambda(g, tau, lam, theta * dt) + step_rhs<R>(e, tau, theta, dt, time)) / R::matrix(g, tau, time, 1., theta * dt);
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  unchanged(e);
  data_unchanged<R>(e);
}
//@unit P24 parab_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void parab_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.set_data(lam, e, time))
}
//@unit P24 parab_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void parab_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
}
