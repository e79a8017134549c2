#pragma once
// Common part of the specification units of the local solvers: an element with arbitrary (symbolic) measures, normals and gradients,
// problem data that are opaque functions, and the reference formulation of the local problems.
#include <HyperHDG/hy_assert.hxx>
#include <array>
#include <cmath>
#include <vector>
#include <algorithm>
#include <string>
#include <tuple>
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
#include <tpp/quadrature/tensorial.hxx>
#include <tpp/shape_function/shape_function.hxx>
#include "vp.hxx"
extern "C" void vp_lapack_ok();    // from here on: every local problem is regular
extern "C" void vp_lapack_fail();  // from here on: every local problem is singular
#define MUST_THROW(call)                 \
  {                                      \
    bool threw = false;                  \
    try                                  \
    {                                    \
      call;                              \
    }                                    \
    catch (const std::exception&)        \
    {                                    \
      threw = true;                      \
    }                                    \
    vp_true("singular: " #call, threw);  \
  }
using uint = unsigned int;

template <class P> double opqf(const char* tag, const P& x, double t)
{
  double a[3] = {0, 0, 0};
  for (uint i = 0; i < P::size(); ++i)
    a[i] = x[i];
  return vp_fn_d(tag, 4, t, a[0], a[1], a[2]);
}
// all problem data any local solver asks for
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<uint, 2> dirichlet_laplacian_nodes{2, 3};
  static constexpr std::array<uint, 1> neumann_nodes{4};
  static constexpr std::array<uint, 1> outflow_nodes{5};
  static constexpr std::array<uint, 2> boundary_nodes{1, 3};
#define PARF(name) \
  static F name(const P& x, const F t = 0.) { return opqf(#name, x, t); }
  PARF(inverse_diffusion_coeff)
  PARF(diffusion_coeff)
  PARF(inverse_bilaplacian_coefficient)
  PARF(right_hand_side)
  PARF(dirichlet_value)
  PARF(dirichlet_laplace_value)
  PARF(neumann_value)
  PARF(analytic_result)
  PARF(initial)
  PARF(initial_laplace)
  PARF(reaction_rate)
  PARF(thickness)
#undef PARF
#define PARV(name)                        \
  static P name(const P& x, const F t = 0.) \
  {                                       \
    P v;                                  \
    const char* c[3] = {#name "0", #name "1", #name "2"}; \
    for (uint i = 0; i < S; ++i)          \
      v[i] = opqf(c[i], x, t);            \
    return v;                             \
  }
  PARV(velocity)
  PARV(advective_velocity)
#undef PARV
  // data of beams: the component of a vector field in a direction
#define PARN(name)                                            \
  static F name(const P& x, const P& n, const F t = 0.)       \
  {                                                           \
    double a[6] = {0, 0, 0, 0, 0, 0};                         \
    for (uint i = 0; i < S; ++i)                              \
    {                                                         \
      a[i] = x[i];                                            \
      a[3 + i] = n[i];                                        \
    }                                                         \
    return vp_fn_d(#name, 7, t, a[0], a[1], a[2], a[3], a[4], a[5]); \
  }
  PARN(right_hand_side_n)
  PARN(right_hand_side_m)
  PARN(dirichlet_value_u)
  PARN(dirichlet_value_phi)
  PARN(analytic_result_u)
  PARN(analytic_result_phi)
#undef PARN
};
// element of dimension D in space of dimension S.  kind 0: all measures, gradients and normals are arbitrary
template <uint D, uint S> struct Geo
{
  static constexpr uint hyEdge_dim() { return D; }
  static constexpr uint space_dim() { return S; }
  double area_;
  std::array<double, 2 * D> farea;
  std::array<std::array<double, D>, 2 * D> nor;
  std::array<std::array<double, D>, D> grad;
  Geo()
  {
    area_ = vp_in_d("area", 0);
    for (uint f = 0; f < 2 * D; ++f)
    {
      farea[f] = vp_in_d("face area", f);
      for (uint d = 0; d < D; ++d)
        nor[f][d] = vp_in_d("normal", f * D + d);
    }
    for (uint d = 0; d < D; ++d)
      for (uint e = 0; e < D; ++e)
        grad[d][e] = vp_in_d("gradient", d * D + e);
  }
  double area() const { return area_; }
  double face_area(const uint f) const { return farea[f]; }
  Point<D, double> local_normal(const uint f) const
  {
    Point<D, double> n;
    for (uint d = 0; d < D; ++d)
      n[d] = nor[f][d];
    return n;
  }
  Point<S, double> inner_normal(const uint f) const
  {
    Point<S, double> n;
    for (uint d = 0; d < S; ++d)
      n[d] = vp_in_d("inner normal", f * S + d);
    return n;
  }
  Point<S, double> outer_normal(const uint f) const
  {
    Point<S, double> n;
    for (uint d = 0; d < S; ++d)
      n[d] = vp_in_d("outer normal", f * S + d);
    return n;
  }
  Point<S, double> face_barycenter(const uint f) const
  {
    Point<S, double> n;
    for (uint d = 0; d < S; ++d)
      n[d] = vp_in_d("face centre", f * S + d);
    return n;
  }
  bool extra = false;
  bool has_extra_data() const { return extra; }
  std::array<double, 12> extra_data() const
  {
    std::array<double, 12> x;
    for (uint d = 0; d < 12; ++d)
      x[d] = vp_in_d("section", d);
    return x;
  }
  double vp_grad(uint d, uint e) const { return grad[d][e]; }
  double vp_pgrad(uint k, uint e) const { return vp_in_d("physical gradient", k * D + e); }
  double vp_pnormal(uint k, uint f) const { return vp_in_d("physical normal", f * S + k); }
  template <class P> double vp_point(uint s, const P& p) const
  {
    double a[3] = {0, 0, 0};
    for (uint d = 0; d < D; ++d)
      a[d] = p[d];
    return vp_fn_d("physical point", 4, (double)s, a[0], a[1], a[2]);
  }
};
template <uint D> struct Types
{
  std::array<uint, 2 * D> t;
  Types()
  {
    for (uint f = 0; f < 2 * D; ++f)
      t[f] = vp_in_u("type", f);
  }
  uint operator[](const uint f) const { return t[f]; }
};
struct NoData
{
};
template <uint D, uint S, class Data = NoData> struct Edge
{
  Geo<D, S> geometry;
  Types<D> node_descriptor;
  Data data;
  bool dir(uint f) const { return node_descriptor.t[f] == 1 || node_descriptor.t[f] == 3; }
  bool dirl(uint f) const { return node_descriptor.t[f] == 2 || node_descriptor.t[f] == 3; }
};
template <uint D, uint n> using Loc = std::array<std::array<double, n>, 2 * D>;
template <uint D, uint n> Loc<D, n> lam_in(const char* tag)
{
  Loc<D, n> l;
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < n; ++j)
      l[f][j] = vp_in_d(tag, f * n + j);
  return l;
}
template <uint D, uint n> void same(const char* tag, const Loc<D, n>& got, const Loc<D, n>& want)
{
  for (uint f = 0; f < 2 * D; ++f)
    for (uint j = 0; j < n; ++j)
      vp_eq_d(tag, f * n + j, got[f][j], want[f][j]);
}
// the element and its types are as created
template <class E> void unchanged(const E& e)
{
  const E x{};
  constexpr uint D = decltype(e.geometry)::hyEdge_dim();
  vp_eq_d("element unchanged", 0, e.geometry.area_, x.geometry.area_);
  for (uint f = 0; f < 2 * D; ++f)
  {
    vp_eq_d("element unchanged", 1 + f, e.geometry.farea[f], x.geometry.farea[f]);
    vp_eq_u("node types unchanged", f, e.node_descriptor.t[f], x.node_descriptor.t[f]);
    for (uint d = 0; d < D; ++d)
      vp_eq_d("normals unchanged", f * D + d, e.geometry.nor[f][d], x.geometry.nor[f][d]);
  }
}
constexpr uint ipow(uint b, uint e) { return e == 0 ? 1 : b * ipow(b, e - 1); }
// the unit hypercube
template <uint D> Geo<D, D> unit()
{
  Geo<D, D> g;
  g.area_ = 1.;
  for (uint f = 0; f < 2 * D; ++f)
  {
    g.farea[f] = 1.;
    for (uint d = 0; d < D; ++d)
      g.nor[f][d] = d != f / 2 ? 0. : f % 2 ? 1. : -1.;
  }
  for (uint d = 0; d < D; ++d)
    for (uint e = 0; e < D; ++e)
      g.grad[d][e] = d == e;
  return g;
}

// the errors of the elements add up to a squared norm
template <class Sol> void accumulate()
{
  typedef typename Sol::error_def E;
  typename E::error_t a = E::initial_error(), b = a;
  for (uint k = 0; k < a.size(); ++k)
  {
    vp_eq_d("initial error", k, a[k], 0.);
    a[k] = vp_in_d("error", k);
    b[k] = vp_in_d("new error", k);
  }
  const auto r = E::sum_error(a, b);
  for (uint k = 0; k < a.size(); ++k)
  {
    vp_eq_d("sum of errors", k, r[k], vp_in_d("error", k) + vp_in_d("new error", k));
    vp_eq_d("added error", k, b[k], vp_in_d("new error", k));
    a[k] = vp_in_d("error", k);
  }
  vp_assume(a[0] >= 0.);
  const auto q = E::postprocess_error(a);
  for (uint k = 0; k < a.size(); ++k)
    vp_eq_d("norm of the error", k, q[k], std::sqrt(vp_in_d("error", k)));
}
template <class Sol, class E> void types(const Sol& s, E& e)
{
  const auto t = s.node_types(e);
  for (uint f = 0; f < t.size(); ++f)
    vp_eq_u("node type", f, t[f], e.dir(f) ? 1 : 0);
}
