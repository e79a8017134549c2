// Specification units: local solver for networks of Timoshenko beams.
//@headers local_solver/timoshenko_network.hxx
//@incdir stubs
#include "lsol.hxx"
#include <iostream>
#include <HyperHDG/local_solver/timoshenko_network.hxx>
// Six pairs of (stress resultant, displacement or rotation), components in the frame (tangent, first and second outer normal) of the beam:
//   N_k / C_k + (u_k)' + (phi x t)_k = 0,   (N_k)' = f_k,
//   M_k / C_k + (phi_k)' = 0,               (M_k)' + (t x N)_k = m_k,
// each discretised as the one-dimensional diffusion equation
template <uint p, uint q> struct RefT
{
  static constexpr uint n = p + 1, N = 12 * n;
  typedef TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, 1> > shape;
  typedef TPP::Quadrature::Tensorial<TPP::Quadrature::GaussLegendre<q>, shape, double> I;
  typedef Point<3, double> P;
  typedef Geo<1, 3> G;
  typedef Loc<1, 6> L;
  typedef SmallVec<N, double> V;
  typedef SmallSquareMat<N, double> M;
  typedef Par<3, double> Q;
  // blocks: N, M, u, phi
  static uint nn(uint k, uint i) { return k * n + i; }
  static uint mm(uint k, uint i) { return (3 + k) * n + i; }
  static uint uu(uint k, uint i) { return (6 + k) * n + i; }
  static uint ph(uint k, uint i) { return (9 + k) * n + i; }
  static P axis(G& g, uint k) { return k == 0 ? g.inner_normal(0) : g.outer_normal(k - 1); }
  static double stiff(G& g, uint k)
  {
    if (!g.has_extra_data())
      return 1.;
    const auto x = g.extra_data();
    const uint o = k < 3 ? 0 : 3, c = k % 3;
    double v = x[o];
    if (c > 0)
    {
      double a = 0., b = 0.;
      const P nor = axis(g, c);
      for (uint d = 0; d < 3; ++d)
      {
        a += nor[d] * x[6 + d];
        b += nor[d] * x[9 + d];
      }
      v = x[o + 1] * a + x[o + 2] * b;
    }
    return std::abs(v * (k < 3 ? 1e4 : 1e12));
  }
  static M matrix(G& g, double tau)
  {
    M m;
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
      {
        const double mass = I::integrate_vol_phiphi(i, j) * g.area_, dv = g.grad[0][0] * I::integrate_vol_Dphiphi(i, j, 0) * g.area_;
        double nu = 0., pen = 0.;
        for (uint f = 0; f < 2; ++f)
        {
          nu += g.nor[f][0] * I::integrate_bdr_phiphi(i, j, f) * g.farea[f];
          pen += tau * I::integrate_bdr_phiphi(i, j, f) * g.farea[f];
        }
        for (uint k = 0; k < 6; ++k)
        {
          m(nn(k, i), nn(k, j)) = mass / stiff(g, k);
          m(nn(k, i), uu(k, j)) = -dv;
          m(uu(k, i), nn(k, j)) = nu - dv;
          m(uu(k, i), uu(k, j)) = pen;
        }
        m(nn(1, i), ph(2, j)) = mass;
        m(nn(2, i), ph(1, j)) = -mass;
        m(ph(1, i), nn(2, j)) = mass;
        m(ph(2, i), nn(1, j)) = -mass;
      }
    return m;
  }
  static L frame(G& g, const L& lam)
  {
    L r;
    for (uint f = 0; f < 2; ++f)
      for (uint k = 0; k < 3; ++k)
        for (uint b = 0; b < 2; ++b)
        {
          double v = 0.;
          const P a = axis(g, k);
          for (uint d = 0; d < 3; ++d)
            v += a[d] * lam[f][3 * b + d];
          r[f][3 * b + k] = v;
        }
    return r;
  }
  static V from_lambda(G& g, double tau, const L& lam)
  {
    V r;
    const L loc = frame(g, lam);
    for (uint i = 0; i < n; ++i)
      for (uint f = 0; f < 2; ++f)
        for (uint k = 0; k < 6; ++k)
        {
          const double l = loc[f][k] * I::integrate_bdr_phipsi(i, 0, f) * g.farea[f];
          r[nn(k, i)] -= g.nor[f][0] * l;
          r[uu(k, i)] += tau * l;
        }
    return r;
  }
  template <class E> static V from_data(E& e, double tau, double time)
  {
    V r;
    G& g = e.geometry;
    for (uint i = 0; i < n; ++i)
      for (uint k = 0; k < 3; ++k)
      {
        const int c = k == 0 ? 1 : -(int)k;
        r[uu(k, i)] += I::template integrate_vol_phivecfunccomp<P, G, Q::right_hand_side_n>(i, c, g, time);
        r[ph(k, i)] += I::template integrate_vol_phivecfunccomp<P, G, Q::right_hand_side_m>(i, c, g, time);
        for (uint f = 0; f < 2; ++f)
          if (e.dir(f))
          {
            const double a = I::template integrate_bdr_phivecfunccomp<P, G, Q::dirichlet_value_u>(i, f, c, g, time);
            const double b = I::template integrate_bdr_phivecfunccomp<P, G, Q::dirichlet_value_phi>(i, f, c, g, time);
            r[nn(k, i)] -= g.nor[f][0] * a;
            r[uu(k, i)] += tau * a;
            r[mm(k, i)] -= g.nor[f][0] * b;
            r[ph(k, i)] += tau * b;
          }
      }
    return r;
  }
  // (faces are points, their measure is one)
  template <class E> static L flux(E& e, double tau, const V& x, const L& lam)
  {
    L r{};
    G& g = e.geometry;
    const L loc = frame(g, lam);
    for (uint f = 0; f < 2; ++f)
      if (!e.dir(f))
        for (uint k = 0; k < 6; ++k)
        {
          double v = -tau * loc[f][k];
          for (uint i = 0; i < n; ++i)
            v += (g.nor[f][0] * x[nn(k, i)] + tau * x[uu(k, i)]) * I::integrate_bdr_phipsi(i, 0, f) * g.farea[f];
          const P a = axis(g, k % 3);
          for (uint d = 0; d < 3; ++d)
            r[f][3 * (k / 3) + d] += a[d] * v;
        }
    return r;
  }
};
template <uint p, uint q> using Sol = LocalSolver::TimoshenkoBeam<1, 3, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef RefT<p, q> R;                                                \
  const double tau = vp_in_d("tau", 0), time = vp_in_d("time", 0);     \
  const Sol<p, q> s(tau);                                              \
  Edge<1, 3> e;                                                        \
  e.geometry.extra = x != 0;                                           \
  const auto lam = lam_in<1, 6>("lambda");                             \
  Loc<1, 6> out{}, out2{};

//@unit P25 timo_flux<{p},{q},{x}> x=0,1 p=0,1 q=1,2 if=(q>=2*p)and(p+x<2)
template <uint p, uint q, uint x> void timo_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, time);
  const auto m = R::matrix(e.geometry, tau);
  const auto l = R::from_lambda(e.geometry, tau, lam);
  same<1, 6>("flux", out, R::flux(e, tau, l / m, lam));
  s.residual_flux(lam, out2, e, time);
  same<1, 6>("residual flux", out2, R::flux(e, tau, (l + R::from_data(e, tau, time)) / m, lam));
  same<1, 6>("traces unchanged", lam, lam_in<1, 6>("lambda"));
  unchanged(e);
}
//@unit P29 timo_values<{p},{q},{x}> x=0,1 p=0,1 q=2 if=(p+x<2)
template <uint p, uint q, uint x> void timo_values()
{
  COMMON
  typedef typename R::P P;
  typedef typename R::G G;
  const typename R::V y = (R::from_lambda(e.geometry, tau, lam) + R::from_data(e, tau, time)) / R::matrix(e.geometry, tau);
  double err = 0.;
  std::array<double, R::n> c[3];
  for (uint k = 0; k < 3; ++k)
  {
    for (uint i = 0; i < R::n; ++i)
      c[k][i] = y[R::uu(k, i)];
    err += R::I::template integrate_vol_diffsquare_discanacomp<P, G, Par<3, double>::analytic_result_u, P>(c[k], k == 0 ? 1 : -(int)k, e.geometry, time);
  }
  vp_eq_d("error", 0, s.errors(lam, e, time)[0], err);
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  const auto b = s.bulk_values(ab, lam, e, time);
  for (uint k = 0; k < 2; ++k)
    for (uint d = 0; d < 3; ++d)
    {
      double v = 0.;
      for (uint a = 0; a < 3; ++a)
        for (uint i = 0; i < R::n; ++i)
          v += R::axis(e.geometry, a)[d] * c[a][i] * R::shape::template fct_val<double>(i, Point<1>(ab[k]));
      vp_eq_d("bulk value", 3 * k + d, b[d][k], v);
    }
  unchanged(e);
}
//@unit P24 timo_fail<{p},{q},{x}> mode=ndebug p=0,1 q=2 x=0
template <uint p, uint q, uint x> void timo_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, time))
  MUST_THROW(s.residual_flux(lam, out, e, time))
  MUST_THROW(s.errors(lam, e, time))
  MUST_THROW(s.bulk_values(ab, lam, e, time))
}
//@unit P24 timo_basics<{p}> p=0,1
template <uint p> void timo_basics()
{
  accumulate<Sol<p, 2> >();
}
