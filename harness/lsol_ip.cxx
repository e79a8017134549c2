// Specification units: local solver of the interior penalty method for the diffusion equation.
//@headers local_solver/diffusion_ip.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_ip.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::DiffusionIP<D, p, q, Par, double>;
// (kappa grad u, grad v) - <kappa grad u.n, v> + tau <u - lambda, v> = (f, v)
template <uint D, uint p, uint q, uint S> struct RefIP
{
  typedef Ref<D, p, q, S> R;
  typedef typename R::I I;
  typedef typename R::P P;
  typedef typename R::G G;
  typedef typename R::L L;
  static constexpr uint n = R::n, nb = R::nb;
  typedef SmallVec<n, double> V;
  typedef SmallSquareMat<n, double> M;
  static M matrix(G& g, double tau, double time)
  {
    M m;
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
      {
        double v = I::template integrate_vol_nablaphinablaphifunc<P, G, Par<S, double>::diffusion_coeff>(i, j, g, time);
        for (uint f = 0; f < 2 * D; ++f)
          v += tau * I::integrate_bdr_phiphi(i, j, f) * g.farea[f] -
               I::template integrate_bdr_nablaphiphinufunc<P, G, Par<S, double>::diffusion_coeff>(j, i, f, g, time);
        m(i, j) = v;
      }
    return m;
  }
  static V from_lambda(G& g, double tau, const L& lam)
  {
    V r;
    for (uint i = 0; i < n; ++i)
      for (uint f = 0; f < 2 * D; ++f)
        for (uint j = 0; j < nb; ++j)
          r[i] += tau * lam[f][j] * I::integrate_bdr_phipsi(i, j, f) * g.farea[f];
    return r;
  }
  template <class E> static V from_data(E& e, double tau, double time)
  {
    V r;
    for (uint i = 0; i < n; ++i)
    {
      r[i] = R::source(e.geometry, i, time);
      for (uint f = 0; f < 2 * D; ++f)
        if (e.dir(f))
          r[i] += tau * R::boundary_data(e.geometry, i, f, time);
    }
    return r;
  }
  template <class E> static L flux(E& e, double tau, double time, const V& x, const L& lam)
  {
    L r;
    G& g = e.geometry;
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < nb; ++j)
      {
        double v = -tau * lam[f][j] * g.farea[f];
        for (uint i = 0; i < n; ++i)
          v += x[i] * (tau * I::integrate_bdr_phipsi(i, j, f) * g.farea[f] -
                       I::template integrate_bdr_nablaphipsinufunc<P, G, Par<S, double>::diffusion_coeff>(i, j, f, g, time));
        r[f][j] = e.dir(f) ? 0. : v;
      }
    return r;
  }
};
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef RefIP<D, p, q, S> R;                                         \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = lam_in<D, R::nb>("lambda");                         \
  auto out = lam_in<D, R::nb>("rubbish");

//@unit P25 ip_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=2,4 s=1,2 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))
//@unit P25 ip_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 ip_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void ip_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(e.geometry, tau, time);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  same<D, R::nb>("flux", out, R::flux(e, tau, time, l / m, lam));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  same<D, R::nb>("residual flux", out2, R::flux(e, tau, time, (l + R::from_data(e, tau, time)) / m, lam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
//@unit P29 ip_values<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2 if=(d<=s)and(q==2*p)and((d==1)or(p<2))
//@unit P29 ip_values<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P29 ip_values<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void ip_values()
{
  COMMON
  const typename R::V x = (R::from_lambda(e.geometry, tau, lam) + R::from_data(e, tau, time)) / R::matrix(e.geometry, tau, time);
  std::array<double, R::n> c;
  for (uint i = 0; i < R::n; ++i)
    c[i] = x[i];
  typedef typename R::P P;
  const double err = R::I::template integrate_vol_diffsquare_discana<P, typename R::G, Par<S, double>::analytic_result, P>(c, e.geometry, time);
  vp_eq_d("error", 0, s.errors(lam, e, time)[0], err);
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  const auto b = s.bulk_values(ab, lam, e, time);
  for (uint k = 0; k < ipow(2, D); ++k)
  {
    Point<D> pt;
    for (uint d = 0, r = k; d < D; ++d, r /= 2)
      pt[d] = ab[r % 2];
    double v = 0.;
    for (uint i = 0; i < R::n; ++i)
      v += x[i] * R::R::shape::template fct_val<double>(i, pt);
    vp_eq_d("bulk value", k, b[0][k], v);
  }
  unchanged(e);
}
//@unit P24 ip_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void ip_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
}
//@unit P24 ip_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void ip_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
