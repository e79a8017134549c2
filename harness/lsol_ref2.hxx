#pragma once
// Reference: two coupled local problems for the bilaplacian,
//   q + grad u = 0,  div q = w / kappa          (trace of u: first half of lambda)
//   p + grad w = 0,  div p + c u = f            (trace of w: second half of lambda)
#include "lsol_ref.hxx"
template <uint D, uint p, uint q, uint S, bool coeff = true> struct Ref2
{
  typedef Ref<D, p, q, S, false> R;
  typedef typename R::I I;
  typedef typename R::P P;
  typedef typename R::G G;
  static constexpr uint dim = D, n = R::n, nb = R::nb, H = R::N, N = 2 * H;
  typedef Loc<D, 2 * nb> L;
  typedef SmallVec<N, double> V;
  typedef SmallSquareMat<N, double> M;
  static M matrix(G& g, double tau, double time, double c = 0., double s = 1.)
  {
    M m;
    const auto a = R::matrix(g, tau, time, 0.), b = R::matrix(g, tau, time, 0., s);
    for (uint i = 0; i < H; ++i)
      for (uint j = 0; j < H; ++j)
      {
        m(i, j) = a(i, j);
        m(H + i, H + j) = b(i, j);
      }
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
      {
        m(D * n + i, H + D * n + j) =
          -(coeff ? I::template integrate_vol_phiphifunc<P, G, Par<S, double>::inverse_bilaplacian_coefficient>(i, j, g, time)
                  : I::integrate_vol_phiphi(i, j) * g.area_);
        m(H + D * n + i, D * n + j) = c * I::integrate_vol_phiphi(i, j) * g.area_;
      }
    return m;
  }
  static typename R::L half(const L& lam, uint h)
  {
    typename R::L l;
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < nb; ++j)
        l[f][j] = lam[f][h * nb + j];
    return l;
  }
  static V join(const typename R::V& a, const typename R::V& b)
  {
    V r;
    for (uint i = 0; i < H; ++i)
    {
      r[i] = a[i];
      r[H + i] = b[i];
    }
    return r;
  }
  static V from_lambda(G& g, double tau, const L& lam, double s = 1.)
  {
    return join(R::from_lambda(g, tau, half(lam, 0)), R::from_lambda(g, tau, half(lam, 1), s));
  }
  template <class E> static V from_data(E& e, double tau, double time, double s = 1.)
  {
    typename R::V a, b;
    G& g = e.geometry;
    for (uint i = 0; i < n; ++i)
    {
      b[D * n + i] = s * R::source(g, i, time);
      for (uint f = 0; f < 2 * D; ++f)
      {
        if (e.dir(f))
        {
          const double l = R::boundary_data(g, i, f, time);
          for (uint d = 0; d < D; ++d)
            a[d * n + i] -= g.nor[f][d] * l;
          a[D * n + i] += tau * l;
        }
        if (e.dirl(f))
        {
          const double l = I::template integrate_bdr_phifunc<P, G, Par<S, double>::dirichlet_laplace_value>(i, f, g, time);
          for (uint d = 0; d < D; ++d)
            b[d * n + i] -= g.nor[f][d] * l;
          b[D * n + i] += s * tau * l;
        }
      }
    }
    return join(a, b);
  }
  static typename R::V part(const V& x, uint h)
  {
    typename R::V r;
    for (uint i = 0; i < H; ++i)
      r[i] = x[h * H + i];
    return r;
  }
  // the flux of w belongs to the unknown trace of u and vice versa; straight: flux of u first
  template <class E> static L flux(E& e, double tau, const V& x, const L& lam, bool straight = false)
  {
    L r;
    for (uint h = 0; h < 2; ++h)
    {
      const uint o = straight ? h : 1 - h;
      const auto y = part(x, o);
      const auto l = half(lam, o);
      for (uint f = 0; f < 2 * D; ++f)
        for (uint j = 0; j < nb; ++j)
          r[f][h * nb + j] = (h == 0 ? e.dir(f) : e.dirl(f))
                               ? 0.
                               : R::dual(e.geometry, y, f, j) + tau * R::primal(e.geometry, y, f, j) - tau * l[f][j] * e.geometry.farea[f];
    }
    return r;
  }
  static V from_coeffs(G& g, const V& x)
  {
    return join(typename R::V(), R::from_coeffs(g, part(x, 0)));
  }
  static double error(G& g, const V& x, double time) { return R::error(g, part(x, 0), time); }
  template <uint na, class B> static void bulk(const char* tag, const B& got, const std::array<double, na>& ab, const V& x)
  {
    R::template bulk<na>(tag, got, ab, part(x, 0));
  }
  template <class F2> static void sameL(const char* tag, const F2& got, const L& want) { same<D, 2 * nb>(tag, got, want); }
  static L lam(const char* tag) { return lam_in<D, 2 * nb>(tag); }
  // traces of the initial values on faces that carry no boundary condition, and of u = 0 on Dirichlet faces
  template <class E> static void initial(E& e, const L& got, double time)
  {
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < nb; ++j)
      {
        const double u = I::template integrate_bdrUni_psifunc<P, G, Par<S, double>::initial>(j, f, e.geometry, time);
        const double w = I::template integrate_bdrUni_psifunc<P, G, Par<S, double>::initial_laplace>(j, f, e.geometry, time);
        vp_eq_d("initial trace", f * nb + j, got[f][j], e.dir(f) ? 0. : u);
        vp_eq_d("initial trace of the Laplacian", f * nb + j, e.dir(f) || e.dirl(f) ? 0. : got[f][nb + j], e.dir(f) || e.dirl(f) ? 0. : w);
      }
  }
};
