// Specification units: local solver for time-dependent advection.
//@headers local_solver/advection_parab_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
// types 1 Dirichlet, 5 outflow, 2 boundary (Dirichlet if the velocity points inwards, outflow otherwise)
template <uint S, class F> struct ParA : Par<S, F>
{
  static constexpr std::array<uint, 1> dirichlet_nodes{1};
  static constexpr std::array<uint, 1> outflow_nodes{5};
  static constexpr std::array<uint, 1> boundary_nodes{2};
};
// M u' = F(u, lambda):  F = (f, v) + (u b, grad v) - <(b.n)+ u + tau [b.n>0] u, v> - <(b.n)+ lambda - tau [b.n<0] lambda, v>
// (on Dirichlet faces the data replace lambda, without the penalty), flux G(u, lambda) = <(b.n)+ u + tau [b.n>0] u + (b.n)+ lambda - tau [b.n<0] lambda, w>
// (on outflow faces only the tau terms); here (b.n)+ is the part of the normal velocity the quadrature rule cuts.
// theta scheme:  M u = M u_old + dt (theta F(u, lambda) + (1 - theta) F_old),  flux = theta G(u, lambda) + (1 - theta) G_old
template <uint D, uint p, uint q, uint S> struct RefA
{
  static constexpr uint n = ipow(p + 1, D), nb = ipow(p + 1, D - 1);
  typedef TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, D> > shape;
  typedef TPP::Quadrature::Tensorial<TPP::Quadrature::GaussLegendre<q>, shape, double> I;
  typedef Point<S, double> P;
  typedef Geo<D, S> G;
  typedef Loc<D, nb> L;
  typedef SmallVec<n, double> V;
  typedef SmallSquareMat<n, double> M;
  typedef ParA<S, double> Q;
  template <class E> static double vn(E& e, uint f, double time)
  {
    double v = 0.;
    const P a = e.geometry.inner_normal(f), b = Q::velocity(e.geometry.face_barycenter(f), time);
    for (uint d = 0; d < S; ++d)
      v += a[d] * b[d];
    return v;
  }
  template <class E> static bool dirichlet(E& e, uint f, double time)
  {
    return e.node_descriptor.t[f] == 1 || (e.node_descriptor.t[f] == 2 && vn(e, f, time) <= 0.);
  }
  template <class E> static bool outflow(E& e, uint f, double time)
  {
    return e.node_descriptor.t[f] == 5 || (e.node_descriptor.t[f] == 2 && vn(e, f, time) > 0.);
  }
#define WIND(name) I::template integrate_bdr_##name<P, G, Q::velocity>(i, j, f, g, time)
  // derivative of F_i with respect to u_j
  static double du(G& g, double tau, double time, uint i, uint j)
  {
    double v = I::template integrate_vol_nablaphiphivecfunc<P, G, Q::velocity>(i, j, g, time);
    for (uint f = 0; f < 2 * D; ++f)
      v -= WIND(phiphinuvecfunc_cutwind) + tau * WIND(phiphi_cutwind);
    return v;
  }
  static double dl(G& g, double tau, double time, uint i, uint j, uint f)
  {
    return tau * WIND(phipsi_cutdownwind) - WIND(phipsinuvecfunc_cutwind);
  }
  template <class E> static double data(E& e, double time, uint i)
  {
    G& g = e.geometry;
    double v = I::template integrate_vol_phifunc<P, G, Q::right_hand_side>(i, g, time);
    for (uint f = 0; f < 2 * D; ++f)
      if (dirichlet(e, f, time))
        v -= I::template integrate_bdr_phifuncnuvecfunc_cutwind<P, G, Q::dirichlet_value, Q::velocity>(i, f, g, time);
    return v;
  }
  template <class E, class U> static double rate(E& e, double tau, double time, const U& u, const L& lam, uint i)
  {
    double v = data(e, time, i);
    for (uint j = 0; j < n; ++j)
      v += u[j] * du(e.geometry, tau, time, i, j);
    for (uint f = 0; f < 2 * D; ++f)
      if (!dirichlet(e, f, time))
        for (uint j = 0; j < nb; ++j)
          v += lam[f][j] * dl(e.geometry, tau, time, i, j, f);
    return v;
  }
  template <class E, class U> static double flux(E& e, double tau, double time, const U& u, const L& lam, uint i, uint f)
  {
    G& g = e.geometry;
    double v = 0.;
    const bool o = outflow(e, f, time);
    for (uint j = 0; j < n; ++j)
      v += u[j] * (tau * WIND(psiphi_cutwind) + (o ? 0. : WIND(psiphinuvecfunc_cutwind)));
    for (uint j = 0; j < nb; ++j)
      v -= lam[f][j] * (tau * WIND(psipsi_cutdownwind) - (o ? 0. : WIND(psipsinuvecfunc_cutwind)));
    return v;
  }
  static M matrix(G& g, double tau, double k, double time)
  {
    M m;
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
        m(i, j) = I::integrate_vol_phiphi(i, j) * g.area_ - k * du(g, tau, time, i, j);
    return m;
  }
  static V from_lambda(G& g, double tau, double k, double time, const L& lam)
  {
    V r;
    for (uint i = 0; i < n; ++i)
      for (uint f = 0; f < 2 * D; ++f)
        for (uint j = 0; j < nb; ++j)
          r[i] += k * lam[f][j] * dl(g, tau, time, i, j, f);
    return r;
  }
};
template <uint D, uint p, uint q> using Sol = LocalSolver::AdvectionParab<D, p, q, ParA, double>;
template <class R, uint D, class T> void arbitrary(T& d)
{
  for (uint i = 0; i < R::n; ++i)
  {
    d.u_old[i] = vp_in_d("old solution", i);
    d.flux_old[i] = vp_in_d("old rate", i);
  }
  for (uint i = 0; i < R::nb; ++i)
    for (uint f = 0; f < 2 * D; ++f)
      d.boundary_flux_old(i, f) = vp_in_d("old flux", i * 2 * D + f);
}
template <class R, uint D, class T> void data_is(const char* what, const T& d, const T& x)
{
  for (uint i = 0; i < R::n; ++i)
  {
    vp_eq_d("old solution", i, d.u_old[i], x.u_old[i]);
    vp_eq_d("old rate", i, d.flux_old[i], x.flux_old[i]);
  }
  for (uint i = 0; i < R::nb; ++i)
    for (uint f = 0; f < 2 * D; ++f)
      vp_eq_d("old flux", i * 2 * D + f, d.boundary_flux_old(i, f), x.boundary_flux_old(i, f));
}
#define COMMON                                                                                                \
  vp_lapack_ok();                                                                                             \
  typedef RefA<D, p, q, S> R;                                                                                 \
  const double tau = vp_in_d("tau", 0), theta = vp_in_d("theta", 0), dt = vp_in_d("dt", 0), time = vp_in_d("time", 0); \
  const Sol<D, p, q> s(std::vector<double>{tau, theta, dt});                                                  \
  Edge<D, S, typename Sol<D, p, q>::data_type> e;                                                             \
  arbitrary<R, D>(e.data);                                                                                    \
  const auto lam = lam_in<D, R::nb>("lambda");                                                                \
  auto out = lam_in<D, R::nb>("rubbish");
#define SOLVE                                                                                                 \
  const auto m = R::matrix(e.geometry, tau, theta * dt, time);                                                \
  const auto l = R::from_lambda(e.geometry, tau, theta * dt, time, lam);                                      \
  typename R::V r = l;                                                                                        \
  for (uint i = 0; i < R::n; ++i)                                                                             \
    r[i] += vp_in_d("old solution", i) * e.geometry.area_ +                                                   \
            dt * (theta * R::data(e, time, i) + (1. - theta) * vp_in_d("old rate", i));

//@unit P25 adv_flux<{d},{p},{q},{s}> d=1,2 p=0,1 q=1,2 s=1,2 if=(d<=s)and(q>=2*p)and(d+p<3)
//@unit P25 adv_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 adv_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
template <uint D, uint p, uint q, uint S> void adv_flux()
{
  COMMON
  SOLVE
  s.trace_to_flux(lam, out, e, time);
  const typename R::V u0 = l / m, u1 = r / m;
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < R::nb; ++j)
      vp_eq_d("flux", f * R::nb + j, out[f][j], R::dirichlet(e, f, time) ? 0. : theta * R::flux(e, tau, time, u0, lam, j, f));
  auto out2 = lam_in<D, R::nb>("rubbish");
  s.residual_flux(lam, out2, e, time);
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < R::nb; ++j)
      vp_eq_d("residual flux", f * R::nb + j, out2[f][j],
              R::dirichlet(e, f, time) ? 0. : theta * R::flux(e, tau, time, u1, lam, j, f) + (1. - theta) * vp_in_d("old flux", j * 2 * D + f));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  typename Sol<D, p, q>::data_type x;
  arbitrary<R, D>(x);
  data_is<R, D>("", e.data, x);
  unchanged(e);
}
//@unit P29 adv_step<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void adv_step()
{
  COMMON
  SOLVE
  const typename R::V u = r / m;
  s.set_data(lam, e, time);
  typename Sol<D, p, q>::data_type x;
  for (uint i = 0; i < R::n; ++i)
  {
    x.u_old[i] = u[i];
    x.flux_old[i] = R::rate(e, tau, time, u, lam, i);
  }
  for (uint i = 0; i < R::nb; ++i)
    for (uint f = 0; f < 2 * D; ++f)
      x.boundary_flux_old(i, f) = R::flux(e, tau, time, u, lam, i, f);
  data_is<R, D>("", e.data, x);
  unchanged(e);
}
//@unit P29 adv_initial<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void adv_initial()
{
  COMMON
  s.make_initial(out, e, time);
  Loc<D, R::nb> w;
  typename Sol<D, p, q>::data_type x;
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < R::nb; ++j)
      w[f][j] = R::dirichlet(e, f, time) ? 0. : R::I::template integrate_bdrUni_psifunc<typename R::P, typename R::G, R::Q::initial>(j, f, e.geometry, time);
  same<D, R::nb>("initial traces", out, w);
  for (uint i = 0; i < R::n; ++i)
    x.u_old[i] = R::I::template integrate_volUni_phifunc<typename R::P, typename R::G, R::Q::initial>(i, e.geometry, time);
  for (uint i = 0; i < R::n; ++i)
    x.flux_old[i] = R::rate(e, tau, time, x.u_old, w, i);
  for (uint i = 0; i < R::nb; ++i)
    for (uint f = 0; f < 2 * D; ++f)
      x.boundary_flux_old(i, f) = R::flux(e, tau, time, x.u_old, w, i, f);
  data_is<R, D>("", e.data, x);
  unchanged(e);
}
//@unit P29 adv_values<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=2 s=1,2 if=(d<=s)and(d+p<4)
template <uint D, uint p, uint q, uint S> void adv_values()
{
  COMMON
  std::array<double, R::n> c;
  for (uint i = 0; i < R::n; ++i)
    c[i] = vp_in_d("old solution", i);
  typedef typename R::P P;
  vp_eq_d("error", 0, s.errors(lam, e, time)[0],
          (R::I::template integrate_vol_diffsquare_discana<P, typename R::G, R::Q::analytic_result, P>(c, e.geometry, time)));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  const auto b = s.bulk_values(ab, lam, e, time);
  for (uint k = 0; k < ipow(2, D); ++k)
  {
    Point<D> pt;
    for (uint d = 0, r = k; d < D; ++d, r /= 2)
      pt[d] = ab[r % 2];
    double v = 0.;
    for (uint i = 0; i < R::n; ++i)
      v += c[i] * R::shape::template fct_val<double>(i, pt);
    vp_eq_d("bulk value", k, b[0][k], v);
  }
  unchanged(e);
}
//@unit P24 adv_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void adv_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.set_data(lam, e, time))
}
//@unit P24 adv_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void adv_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
}
