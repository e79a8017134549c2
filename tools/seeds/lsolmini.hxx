// An axis-parallel box as hyperedge and executable shape functions/quadrature for demonstrations of local solvers.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <iostream>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
typedef unsigned int uint;
inline int demo_bad = 0;
#define CHECK(c) \
  do { if (!(c)) { std::printf("FAILED: %s (line %d)\n", #c, __LINE__); demo_bad = 1; } } while (0)
extern "C"
{
  double vp_phi(unsigned int a, double x)
  {
    const double y = 2 * x - 1;
    return std::sqrt(2. * a + 1) * (a == 0 ? 1. : a == 1 ? y : a == 2 ? (3 * y * y - 1) / 2 : NAN);
  }
  double vp_dphi(unsigned int a, double x)
  {
    const double y = 2 * x - 1;
    return 2 * std::sqrt(2. * a + 1) * (a == 0 ? 0. : a == 1 ? 1. : a == 2 ? 3 * y : NAN);
  }
  double vp_gauss(unsigned int n, unsigned int q, unsigned int what)
  {
    static const double x[4][3] = {{0}, {0.5}, {0.5 - 0.5 / std::sqrt(3.), 0.5 + 0.5 / std::sqrt(3.)},
                                   {0.5 - 0.5 * std::sqrt(0.6), 0.5, 0.5 + 0.5 * std::sqrt(0.6)}};
    static const double w[4][3] = {{0}, {1}, {0.5, 0.5}, {5. / 18, 4. / 9, 5. / 18}};
    return n > 3 ? NAN : what ? x[n][q] : w[n][q];
  }
  double vp_tab(unsigned int a, unsigned int d1, unsigned int b, unsigned int d2)
  {
    double s = 0.;
    for (uint q = 0; q < 3; ++q)
    {
      const double x = vp_gauss(3, q, 1);
      s += vp_gauss(3, q, 0) * (d1 ? vp_dphi(a, x) : vp_phi(a, x)) * (d2 ? vp_dphi(b, x) : vp_phi(b, x));
    }
    return s;
  }
  double vp_cut(double v, unsigned int kind) { return kind == 0 ? std::max(v, 0.) : kind == 1 ? v > 0. : v < 0.; }
  double vp_fn_d(const char*, int, ...);
}
double vp_fn_d(const char*, int n, ...)  // only used for the square
{
  va_list v;
  va_start(v, n);
  const double x = va_arg(v, double);
  va_end(v);
  return x * x;
}
template <uint D> struct BoxGeo
{
  static constexpr uint hyEdge_dim() { return D; }
  static constexpr uint space_dim() { return D; }
  std::array<double, D> o, h;
  double area() const { double a = 1; for (double x : h) a *= x; return a; }
  double face_area(uint f) const { return area() / h[f / 2]; }
  Point<D, double> local_normal(uint f) const
  {
    Point<D, double> n;
    for (uint d = 0; d < D; ++d)
      n[d] = d != f / 2 ? 0. : f % 2 ? 1. : -1.;
    return n;
  }
  Point<D, double> inner_normal(uint f) const { return local_normal(f); }
  double vp_grad(uint d, uint e) const { return d == e ? 1 / h[d] : 0.; }
  double vp_pgrad(uint d, uint e) const { return vp_grad(d, e); }
  double vp_pnormal(uint k, uint f) const { return local_normal(f)[k]; }
  template <class P> double vp_point(uint s, const P& p) const { return o[s] + h[s] * p[s]; }
};
struct Nothing
{
};
template <uint D, class Data = Nothing> struct Box
{
  BoxGeo<D> geometry;
  std::array<uint, 2 * D> node_descriptor;
  Data data;
};
