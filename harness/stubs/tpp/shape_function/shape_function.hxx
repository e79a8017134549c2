#pragma once
// Stand-in for the tensor product polynomials of the submodule tpp (which is not part of this checkout).  Only analysed, never
// executed: one-dimensional orthonormal Legendre polynomials on [0,1], tensor products in lexicographic order.
#include <array>
extern "C"
{
  double vp_phi(unsigned int a, double x);   // value of the a-th Legendre polynomial
  double vp_dphi(unsigned int a, double x);  // its derivative
  double vp_tab(unsigned int a, unsigned int d1, unsigned int b, unsigned int d2);  // integral of (D^d1 phi_a)(D^d2 phi_b)
  double vp_gauss(unsigned int n, unsigned int q, unsigned int what);               // weight (0) or node (1) of Gauss quadrature
  double vp_cut(double vn, unsigned int kind);
}
namespace TPP
{
namespace ShapeType
{
template <unsigned int deg> struct Legendre
{
  static constexpr unsigned int degree() { return deg; }
  static constexpr unsigned int n_fun() { return deg + 1; }
  static constexpr unsigned int dim() { return 1; }
};
template <class shape_t, unsigned int dimT> struct Tensorial
{
  static constexpr unsigned int one() { return shape_t::n_fun(); }
  static constexpr unsigned int degree() { return shape_t::degree(); }
  static constexpr unsigned int dim() { return dimT; }
  static constexpr unsigned int n_fun()
  {
    unsigned int n = 1;
    for (unsigned int d = 0; d < dimT; ++d)
      n *= one();
    return n;
  }
};
}  // namespace ShapeType
template <class shape_t> struct ShapeFunction
{
  typedef shape_t shape_fun_t;
  static constexpr unsigned int n_fun() { return shape_t::n_fun(); }
  static constexpr unsigned int degree() { return shape_t::degree(); }
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int index(unsigned int i, unsigned int d)
  {
    for (unsigned int k = 0; k < d; ++k)
      i /= shape_t::one();
    return i % shape_t::one();
  }
  template <typename return_t, typename point_t> static return_t fct_val(const unsigned int i, const point_t& pt)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= vp_phi(index(i, d), pt[d]);
    return v;
  }
  template <typename return_t, typename point_t>
  static return_t der_val(const unsigned int i, const point_t& pt, const unsigned int der)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
      v *= d == der ? vp_dphi(index(i, d), pt[d]) : vp_phi(index(i, d), pt[d]);
    return v;
  }
  // (the precision of the result is not looked at)
  template <typename return_t, typename coeffs_t, typename point_t>
  static double lin_comb_fct_val(const coeffs_t& coeffs, const point_t& pt)
  {
    double v = 0.;
    for (unsigned int i = 0; i < n_fun(); ++i)
      v += coeffs[i] * fct_val<double>(i, pt);
    return v;
  }
};
}  // namespace TPP
