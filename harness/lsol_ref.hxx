#pragma once
// Reference: local problem of the LDG-H method for  q/kappa + grad u = 0,  div q + c u = f:
//   (q/kappa, w) - (u, div w) = -<lambda, w.n>
//   -(q, grad v) + <q.n + tau u, v> + c (u, v) = (f, v) + <tau lambda, v>
// (unknowns q_1 .. q_D, u; rows in the same order; s scales the second line except for the c term)
template <uint D, uint p, uint q, uint S, bool coeff = true> struct Ref
{
  static constexpr uint n = ipow(p + 1, D), nb = ipow(p + 1, D - 1), N = (D + 1) * n;
  typedef TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, D> > shape;
  typedef TPP::Quadrature::Tensorial<TPP::Quadrature::GaussLegendre<q>, shape, double> I;
  static constexpr uint dim = D;
  typedef Point<S, double> P;
  typedef Geo<D, S> G;
  typedef Loc<D, nb> L;
  typedef SmallVec<N, double> V;
  typedef SmallSquareMat<N, double> M;
  static M matrix(G& g, double tau, double time, double c = 0., double s = 1.)
  {
    M m;
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
      {
        const double mass = coeff ? I::template integrate_vol_phiphifunc<P, G, Par<S, double>::inverse_diffusion_coeff>(i, j, g, time) : I::integrate_vol_phiphi(i, j) * g.area_;
        double uu = c * I::integrate_vol_phiphi(i, j) * g.area_;
        for (uint f = 0; f < 2 * D; ++f)
          uu += s * tau * I::integrate_bdr_phiphi(i, j, f) * g.farea[f];
        m(D * n + i, D * n + j) = uu;
        for (uint d = 0; d < D; ++d)
        {
          double dv = 0., nn = 0.;
          for (uint e = 0; e < D; ++e)
            dv += g.grad[d][e] * I::integrate_vol_Dphiphi(i, j, e) * g.area_;
          for (uint f = 0; f < 2 * D; ++f)
            nn += g.nor[f][d] * I::integrate_bdr_phiphi(i, j, f) * g.farea[f];
          m(d * n + i, d * n + j) = mass;
          m(d * n + i, D * n + j) = -dv;
          m(D * n + i, d * n + j) = s * (nn - dv);
        }
      }
    return m;
  }
  static V from_lambda(G& g, double tau, const L& lam, double s = 1.)
  {
    V r;
    for (uint i = 0; i < n; ++i)
      for (uint f = 0; f < 2 * D; ++f)
      {
        double l = 0.;
        for (uint j = 0; j < nb; ++j)
          l += lam[f][j] * I::integrate_bdr_phipsi(i, j, f) * g.farea[f];
        for (uint d = 0; d < D; ++d)
          r[d * n + i] -= g.nor[f][d] * l;
        r[D * n + i] += s * tau * l;
      }
    return r;
  }
  // data: volume source and Dirichlet values (which replace the trace on Dirichlet faces)
  template <class E> static V from_data(E& e, double tau, double time, double s = 1.)
  {
    V r;
    G& g = e.geometry;
    for (uint i = 0; i < n; ++i)
    {
      r[D * n + i] = s * I::template integrate_vol_phifunc<P, G, Par<S, double>::right_hand_side>(i, g, time);
      for (uint f = 0; f < 2 * D; ++f)
        if (e.dir(f))
        {
          const double l = I::template integrate_bdr_phifunc<P, G, Par<S, double>::dirichlet_value>(i, f, g, time);
          for (uint d = 0; d < D; ++d)
            r[d * n + i] -= g.nor[f][d] * l;
          r[D * n + i] += s * tau * l;
        }
    }
    return r;
  }
  static double primal(G& g, const V& x, uint f, uint j)
  {
    double v = 0.;
    for (uint i = 0; i < n; ++i)
      v += x[D * n + i] * I::integrate_bdr_phipsi(i, j, f) * g.farea[f];
    return v;
  }
  static double dual(G& g, const V& x, uint f, uint j)
  {
    double v = 0.;
    for (uint i = 0; i < n; ++i)
      for (uint d = 0; d < D; ++d)
        v += x[d * n + i] * g.nor[f][d] * I::integrate_bdr_phipsi(i, j, f) * g.farea[f];
    return v;
  }
  template <class E> static L flux(E& e, double tau, const V& x, const L& lam)
  {
    L r;
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < nb; ++j)
        r[f][j] = e.dir(f) ? 0. : dual(e.geometry, x, f, j) + tau * primal(e.geometry, x, f, j) - tau * lam[f][j] * e.geometry.farea[f];
    return r;
  }
  static double source(G& g, uint i, double time) { return I::template integrate_vol_phifunc<P, G, Par<S, double>::right_hand_side>(i, g, time); }
  static double boundary_data(G& g, uint i, uint f, double time)
  {
    return I::template integrate_bdr_phifunc<P, G, Par<S, double>::dirichlet_value>(i, f, g, time);
  }
  static double resist(G& g, uint i, uint j, double time)
  {
    return I::template integrate_vol_phiphifunc<P, G, Par<S, double>::inverse_diffusion_coeff>(i, j, g, time);
  }
  static double project_initial(G& g, uint i, double time) { return I::template integrate_volUni_phifunc<P, G, Par<S, double>::initial>(i, g, time); }
  static double weak_gradient(G& g, uint i, uint d, double time)
  {
    double r = I::template integrate_vol_derphifunc<P, G, Par<S, double>::initial>(i, d, g, time);
    for (uint f = 0; f < 2 * D; ++f)
      r -= I::template integrate_bdr_phifunc<P, G, Par<S, double>::initial>(i, f, g, time) * g.nor[f][d];
    return r;
  }
  // traces of the initial value: projection of each face, zero on Dirichlet faces
  template <class E> static L initial(E& e, double time)
  {
    L r;
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < nb; ++j)
        r[f][j] = e.dir(f) ? 0. : I::template integrate_bdrUni_psifunc<P, G, Par<S, double>::initial>(j, f, e.geometry, time);
    return r;
  }
  // mass matrix times the primal part, as right-hand side of the conservation law
  static V from_coeffs(G& g, const V& x)
  {
    V r;
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
        r[D * n + i] += I::integrate_vol_phiphi(i, j) * g.area_ * x[D * n + j];
    return r;
  }
  static double error(G& g, const V& x, double time)
  {
    std::array<double, n> c;
    for (uint i = 0; i < n; ++i)
      c[i] = x[D * n + i];
    return I::template integrate_vol_diffsquare_discana<P, G, Par<S, double>::analytic_result, P>(c, g, time);
  }
  // values of all components at tensor products of abscissas
  template <uint na, class B> static void bulk(const char* tag, const B& got, const std::array<double, na>& ab, const V& x)
  {
    for (uint c = 0; c <= D; ++c)
      for (uint k = 0; k < ipow(na, D); ++k)
      {
        Point<D> pt;
        for (uint d = 0, r = k; d < D; ++d, r /= na)
          pt[d] = ab[r % na];
        vp_eq_d(tag, c * ipow(na, D) + k, got[c][k], value(x, c, pt));
      }
  }
  static double value(const V& x, uint comp, const Point<D>& pt)
  {
    double v = 0.;
    for (uint i = 0; i < n; ++i)
      v += x[comp * n + i] * shape::template fct_val<double>(i, pt);
    return v;
  }
};
