#pragma once
// Stand-in for the quadrature of the submodule tpp (which is not part of this checkout).  Only analysed, never executed.  The geometry
// is one of /verif/harness (area, face_area, local_normal, and the further members vp_grad, vp_pgrad, vp_point).
#include <tpp/shape_function/shape_function.hxx>
extern "C" double vp_fn_d(const char* tag, int n, ...);
// members of the geometries of the specification units; a geometry of the library itself is only type-checked
#define VP_MEMBER(fn, mem)                                                                            \
  template <class G, class A, class B> inline __attribute__((always_inline)) double fn(G& g, A a, const B& b) \
  {                                                                                                   \
    if constexpr (requires { g.mem(a, b); })                                                          \
      return g.mem(a, b);                                                                             \
    else                                                                                              \
      return 0.;                                                                                      \
  }
VP_MEMBER(vp_m_grad, vp_grad)
VP_MEMBER(vp_m_pgrad, vp_pgrad)
VP_MEMBER(vp_m_point, vp_point)
VP_MEMBER(vp_m_pnormal, vp_pnormal)
namespace TPP
{
namespace Quadrature
{
template <unsigned int quad_deg> struct GaussLegendre
{
  static constexpr unsigned int n_points() { return quad_deg / 2 + 1; }
};
template <typename rule_t, typename shape_t, typename return_t = double> class Tensorial
{
 public:
  typedef shape_t shape_fun_t;
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int n_fun_1D = shape_t::degree() + 1;
  static constexpr unsigned int n_q = rule_t::n_points();
  static constexpr unsigned int n_quad(const unsigned int d)
  {
    unsigned int n = 1;
    for (unsigned int k = 0; k < d; ++k)
      n *= n_q;
    return n;
  }

 private:
  static unsigned int idx(unsigned int i, unsigned int d) { return shape_t::index(i, d); }
  // index of the boundary function with respect to dimension d of a face orthogonal to dimension fd
  static unsigned int bidx(unsigned int j, unsigned int d, unsigned int fd) { return shape_t::index(j, d < fd ? d : d - 1); }
  struct Pt
  {
    std::array<double, (dim() > 0 ? dim() : 1)> x;
    double w;
    double operator[](unsigned int d) const { return x[d]; }
  };
  static Pt vol_pt(unsigned int q)
  {
    Pt p;
    p.w = 1.;
    for (unsigned int d = 0; d < dim(); ++d, q /= n_q)
    {
      p.x[d] = vp_gauss(n_q, q % n_q, 1);
      p.w *= vp_gauss(n_q, q % n_q, 0);
    }
    return p;
  }
  static Pt bdr_pt(unsigned int q, const unsigned int bdr)
  {
    Pt p;
    p.w = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      if (d == bdr / 2)
        p.x[d] = (bdr % 2 == 1) ? 1. : 0.;
      else
      {
        p.x[d] = vp_gauss(n_q, q % n_q, 1);
        p.w *= vp_gauss(n_q, q % n_q, 0);
        q /= n_q;
      }
    return p;
  }
  static double phi(unsigned int i, const Pt& p) { return shape_t::template fct_val<double>(i, p); }
  static double dphi(unsigned int i, const Pt& p, unsigned int d) { return shape_t::template der_val<double>(i, p, d); }
  static double psi(unsigned int j, const Pt& p, unsigned int bdr)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      if (d != bdr / 2)
        v *= vp_phi(bidx(j, d, bdr / 2), p[d]);
    return v;
  }
  template <typename geom_t> static double nderiv(unsigned int i, const Pt& p, unsigned int bdr, geom_t& geom)
  {
    double v = 0.;
    for (unsigned int d = 0; d < dim(); ++d)
      for (unsigned int e = 0; e < dim(); ++e)
        v += geom.local_normal(bdr)[d] * vp_m_grad(geom, d, e) * dphi(i, p, e);
    return v;
  }
  template <typename point_t, typename geom_t> static point_t phys(const Pt& p, geom_t& geom)
  {
    point_t x;
    for (unsigned int s = 0; s < geom_t::space_dim(); ++s)
      x[s] = vp_m_point(geom, s, p);
    return x;
  }
  template <typename point_t, typename geom_t> static point_t dir(const int comp, geom_t& geom)
  {
    return comp > 0 ? (point_t)geom.inner_normal(comp - 1) : (point_t)geom.outer_normal(-comp - 1);
  }
  template <typename vec_t, typename geom_t> static double vnu(const vec_t& v, unsigned int bdr, geom_t& geom)
  {
    double s = 0.;
    for (unsigned int k = 0; k < geom_t::space_dim(); ++k)
      s += v[k] * vp_m_pnormal(geom, k, bdr);
    return s;
  }

 public:
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= vp_tab(idx(i, d), 0, idx(j, d), 0);
    return v;
  }
  static return_t integrate_vol_Dphiphi(const unsigned int i, const unsigned int j, const unsigned int der)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= vp_tab(idx(i, d), d == der, idx(j, d), 0);
    return v;
  }
  static return_t integrate_vol_phiDphi(const unsigned int i, const unsigned int j, const unsigned int der)
  {
    return integrate_vol_Dphiphi(j, i, der);
  }
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int bdr)
  {
    double v = 1.;
    const double x = (bdr % 2 == 1) ? 1. : 0.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= d == bdr / 2 ? vp_phi(idx(i, d), x) * vp_phi(idx(j, d), x) : vp_tab(idx(i, d), 0, idx(j, d), 0);
    return v;
  }
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int bdr)
  {
    double v = 1.;
    const double x = (bdr % 2 == 1) ? 1. : 0.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= d == bdr / 2 ? vp_phi(idx(i, d), x) : vp_tab(idx(i, d), 0, bidx(j, d, bdr / 2), 0);
    return v;
  }
  static return_t integrate_bdr_psipsi(const unsigned int i, const unsigned int j, const unsigned int bdr)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      if (d != bdr / 2)
        v *= vp_tab(bidx(i, d, bdr / 2), 0, bidx(j, d, bdr / 2), 0);
    return v;
  }
  template <typename geom_t>
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    return integrate_vol_phiphi(i, j) * geom.area();
  }
  template <typename geom_t, std::size_t n, typename float_t>
  static return_t integrate_vol_phiphi(const std::array<float_t, n>& is, const std::array<float_t, n>& js, geom_t& geom)
  {
    double v = 0.;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        v += is[i] * js[j] * integrate_vol_phiphi(i, j);
    return v * geom.area();
  }
  template <typename vec_t, typename geom_t>
  static vec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    vec_t v;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      v[d] = 0.;
      for (unsigned int e = 0; e < dim(); ++e)
        v[d] += vp_m_grad(geom, d, e) * integrate_vol_Dphiphi(i, j, e) * geom.area();
    }
    return v;
  }
  // the shape functions are of the degrees di and dj
  template <typename vec_t, typename geom_t, unsigned int di, unsigned int dj>
  static vec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    vec_t v;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      v[d] = 0.;
      for (unsigned int e = 0; e < dim(); ++e)
      {
        double t = 1.;
        for (unsigned int k = 0, a = i, b = j; k < dim(); ++k, a /= di + 1, b /= dj + 1)
          t *= vp_tab(a % (di + 1), k == e, b % (dj + 1), 0);
        v[d] += vp_m_grad(geom, d, e) * t * geom.area();
      }
    }
    return v;
  }
  template <typename geom_t>
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom)
  {
    return integrate_bdr_phiphi(i, j, bdr) * geom.face_area(bdr);
  }
  template <typename geom_t>
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom)
  {
    return integrate_bdr_phipsi(i, j, bdr) * geom.face_area(bdr);
  }
  template <typename geom_t>
  static return_t integrate_bdr_psipsi(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom)
  {
    return integrate_bdr_psipsi(i, j, bdr) * geom.face_area(bdr);
  }
#define TPP_FUN typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename vec_t = point_t
#define TPP_VEC typename point_t, typename geom_t, point_t fun(const point_t&, const return_t), typename vec_t = point_t
// component in direction of a normal: 1 the inner normal, -1 and -2 the outer normals
#define TPP_NFUN typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename vec_t = point_t
#define TPP_VOL(factor, term)                                 \
  {                                                           \
    double v = 0.;                                            \
    for (unsigned int q = 0; q < n_quad(dim()); ++q)          \
    {                                                         \
      const Pt p = vol_pt(q);                                 \
      const point_t x = phys<point_t>(p, geom);               \
      v += p.w * (term);                                      \
    }                                                         \
    return v * (factor);                                      \
  }
#define TPP_BDR(factor, term)                                 \
  {                                                           \
    double v = 0.;                                            \
    for (unsigned int q = 0; q < n_quad(dim() - 1); ++q)      \
    {                                                         \
      const Pt p = bdr_pt(q, bdr);                            \
      const point_t x = phys<point_t>(p, geom);               \
      v += p.w * (term);                                      \
    }                                                         \
    return v * (factor);                                      \
  }
  template <TPP_FUN>
  static return_t integrate_vol_phifunc(const unsigned int i, geom_t& geom, const return_t time = 0.)
  TPP_VOL(geom.area(), phi(i, p) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_volUni_phifunc(const unsigned int i, geom_t& geom, const return_t time = 0.)
  TPP_VOL(1., phi(i, p) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_vol_phiphifunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  TPP_VOL(geom.area(), phi(i, p) * phi(j, p) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_vol_derphifunc(const unsigned int i, const unsigned int der, geom_t& geom, const return_t time = 0.)
  {
    double v = 0.;
    for (unsigned int q = 0; q < n_quad(dim()); ++q)
    {
      const Pt p = vol_pt(q);
      double g = 0.;
      for (unsigned int e = 0; e < dim(); ++e)
        g += vp_m_grad(geom, der, e) * dphi(i, p, e);
      v += p.w * g * fun(phys<point_t>(p, geom), time);
    }
    return v * geom.area();
  }
  template <TPP_FUN>
  static return_t integrate_vol_nablaphinablaphifunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  {
    double v = 0.;
    for (unsigned int q = 0; q < n_quad(dim()); ++q)
    {
      const Pt p = vol_pt(q);
      double s = 0.;
      for (unsigned int d = 0; d < dim(); ++d)
      {
        double a = 0., b = 0.;
        for (unsigned int e = 0; e < dim(); ++e)
        {
          a += vp_m_grad(geom, d, e) * dphi(i, p, e);
          b += vp_m_grad(geom, d, e) * dphi(j, p, e);
        }
        s += a * b;
      }
      v += p.w * s * fun(phys<point_t>(p, geom), time);
    }
    return v * geom.area();
  }
  template <TPP_VEC>
  static return_t integrate_vol_phiphivecfunc(const unsigned int i, const unsigned int j, const unsigned int comp, geom_t& geom,
                                              const return_t time = 0.)
  TPP_VOL(geom.area(), phi(i, p) * phi(j, p) * fun(x, time)[comp])
  template <TPP_VEC>
  static return_t integrate_vol_nablaphiphivecfunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  {
    double v = 0.;
    for (unsigned int q = 0; q < n_quad(dim()); ++q)
    {
      const Pt p = vol_pt(q);
      const point_t f = fun(phys<point_t>(p, geom), time);
      double s = 0.;
      for (unsigned int k = 0; k < geom_t::space_dim(); ++k)
        for (unsigned int e = 0; e < dim(); ++e)
          s += f[k] * vp_m_pgrad(geom, k, e) * dphi(i, p, e);
      v += p.w * s * phi(j, p);
    }
    return v * geom.area();
  }
  template <TPP_NFUN>
  static return_t integrate_vol_phivecfunccomp(const unsigned int i, const int comp, geom_t& geom, const return_t time = 0.)
  TPP_VOL(geom.area(), phi(i, p) * fun(x, dir<point_t>(comp, geom), time))
  template <TPP_NFUN>
  static return_t integrate_bdr_phivecfunccomp(const unsigned int i, const unsigned int bdr, const int comp, geom_t& geom,
                                               const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), phi(i, p) * fun(x, dir<point_t>(comp, geom), time))
  template <TPP_FUN>
  static return_t integrate_bdr_phifunc(const unsigned int i, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), phi(i, p) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_bdr_psifunc(const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), psi(j, p, bdr) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_bdrUni_psifunc(const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  TPP_BDR(1., psi(j, p, bdr) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_bdr_nablaphiphinufunc(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom,
                                                  const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), nderiv(i, p, bdr, geom) * phi(j, p) * fun(x, time))
  template <TPP_FUN>
  static return_t integrate_bdr_nablaphipsinufunc(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom,
                                                  const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), nderiv(i, p, bdr, geom) * psi(j, p, bdr) * fun(x, time))
#define TPP_WIND(name, term, kind)                                                                                             \
  template <TPP_VEC>                                                                                                           \
  static return_t name(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.) \
  TPP_BDR(geom.face_area(bdr), (term) * vp_cut(vnu(fun(x, time), bdr, geom), kind))
  // kind 0: outflow part of the normal velocity, 1: indicator of outflow, 2: indicator of inflow
  TPP_WIND(integrate_bdr_phiphinuvecfunc_cutwind, phi(i, p) * phi(j, p), 0)
  TPP_WIND(integrate_bdr_phipsinuvecfunc_cutwind, phi(i, p) * psi(j, p, bdr), 0)
  TPP_WIND(integrate_bdr_psiphinuvecfunc_cutwind, psi(i, p, bdr) * phi(j, p), 0)
  TPP_WIND(integrate_bdr_psipsinuvecfunc_cutwind, psi(i, p, bdr) * psi(j, p, bdr), 0)
  TPP_WIND(integrate_bdr_phiphi_cutwind, phi(i, p) * phi(j, p), 1)
  TPP_WIND(integrate_bdr_phipsi_cutwind, phi(i, p) * psi(j, p, bdr), 1)
  TPP_WIND(integrate_bdr_psiphi_cutwind, psi(i, p, bdr) * phi(j, p), 1)
  TPP_WIND(integrate_bdr_psipsi_cutwind, psi(i, p, bdr) * psi(j, p, bdr), 1)
  TPP_WIND(integrate_bdr_phiphi_cutdownwind, phi(i, p) * phi(j, p), 2)
  TPP_WIND(integrate_bdr_phipsi_cutdownwind, phi(i, p) * psi(j, p, bdr), 2)
  TPP_WIND(integrate_bdr_psiphi_cutdownwind, psi(i, p, bdr) * phi(j, p), 2)
  TPP_WIND(integrate_bdr_psipsi_cutdownwind, psi(i, p, bdr) * psi(j, p, bdr), 2)
  template <typename point_t, typename geom_t, return_t func(const point_t&, const return_t), point_t fun(const point_t&, const return_t),
            typename vec_t = point_t>
  static return_t integrate_bdr_phifuncnuvecfunc_cutwind(const unsigned int i, const unsigned int bdr, geom_t& geom,
                                                         const return_t time = 0.)
  TPP_BDR(geom.face_area(bdr), phi(i, p) * func(x, time) * vp_cut(vnu(fun(x, time), bdr, geom), 0))
  template <TPP_FUN, typename coeffs_t>
  static return_t integrate_vol_diffsquare_discana(const coeffs_t& coeffs, geom_t& geom, const return_t time = 0.)
  {
    double v = 0.;
    for (unsigned int q = 0; q < n_quad(dim()); ++q)
    {
      const Pt p = vol_pt(q);
      double s = -fun(phys<point_t>(p, geom), time);
      for (unsigned int i = 0; i < shape_t::n_fun(); ++i)
        s += coeffs[i] * phi(i, p);
      v += p.w * vp_fn_d("square", 1, s);
    }
    return v * geom.area();
  }
  template <TPP_NFUN, typename coeffs_t>
  static return_t integrate_vol_diffsquare_discanacomp(const coeffs_t& coeffs, const int comp, geom_t& geom, const return_t time = 0.)
  {
    double v = 0.;
    for (unsigned int q = 0; q < n_quad(dim()); ++q)
    {
      const Pt p = vol_pt(q);
      double s = -fun(phys<point_t>(p, geom), dir<point_t>(comp, geom), time);
      for (unsigned int i = 0; i < shape_t::n_fun(); ++i)
        s += coeffs[i] * phi(i, p);
      v += p.w * vp_fn_d("square", 1, s);
    }
    return v * geom.area();
  }
};
}  // namespace Quadrature
}  // namespace TPP
