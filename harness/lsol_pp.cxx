// Specification units: local solver for the diffusion equation with postprocessing.
//@headers local_solver/diffusion_ldgh_pp.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::DiffusionPostprocess<D, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref<D, p, q, S> R;                                           \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = lam_in<D, R::nb>("lambda");                         \
  auto out = lam_in<D, R::nb>("rubbish");

//@unit P25 pp_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=2,4 s=1,2 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))
//@unit P25 pp_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 pp_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void pp_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(e.geometry, tau, time);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  same<D, R::nb>("flux", out, R::flux(e, tau, l / m, lam));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  same<D, R::nb>("residual flux", out2, R::flux(e, tau, (l + R::from_data(e, tau, time)) / m, lam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
// the error of the postprocessed solution u*: polynomial of degree p + 1 with (kappa grad u*, grad v) = -(q, grad v) for all v and the mean of u
//@unit P29 pp_values<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and((d==1)or(p<1))
template <uint D, uint p, uint q, uint S> void pp_values()
{
  COMMON
  const typename R::V x = (R::from_lambda(e.geometry, tau, lam) + R::from_data(e, tau, time)) / R::matrix(e.geometry, tau, time);
  typedef Ref<D, p + 1, q + 2, S> R1;
  typedef typename R1::I I;
  constexpr uint N = R1::n;
  SmallSquareMat<N, double> m;
  SmallVec<N, double> r;
  for (uint i = 0; i < N; ++i)
    for (uint j = 0; j < N; ++j)
      m(i, j) = I::template integrate_vol_nablaphinablaphifunc<typename R::P, typename R::G, Par<S, double>::diffusion_coeff>(i, j, e.geometry, time);
  m(0, 0) = e.geometry.area_;
  r[0] = x[D * R::n] * e.geometry.area_;
  for (uint i = 1; i < N; ++i)
    for (uint j = 0; j < R::n; ++j)
    {
      // the j-th shape function of degree p as a shape function of degree p + 1
      uint jj = 0;
      for (uint d = 0, b = 1, k = j; d < D; ++d, b *= p + 2, k /= p + 1)
        jj += (k % (p + 1)) * b;
      for (uint d = 0; d < D; ++d)
        for (uint c = 0; c < D; ++c)
          r[i] -= x[d * R::n + j] * e.geometry.grad[d][c] * I::integrate_vol_Dphiphi(i, jj, c) * e.geometry.area_;
    }
  const SmallVec<N, double> u = r / m;
  std::array<double, N> c;
  for (uint i = 0; i < N; ++i)
    c[i] = u[i];
  vp_eq_d("error", 0, s.errors(lam, e, time)[0],
          (I::template integrate_vol_diffsquare_discana<typename R::P, typename R::G, Par<S, double>::analytic_result, typename R::P>(c, e.geometry, time)));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, time), ab, x);
  unchanged(e);
}
//@unit P24 pp_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void pp_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
}
//@unit P24 pp_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void pp_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
