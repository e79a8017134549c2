#pragma once
// Real local solvers in real global loops: each operator of a loop is the sum of what the local solver itself computes.
#include "lsol.hxx"
#include <memory>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include "mock.hxx"

template <uint D, uint S> struct FGeom
{
  struct value_type : Geo<D, S>
  {
    uint idx;
    value_type(uint i) : idx(i)
    {
      this->area_ = vp_in_d("area of edge", i);
      for (uint f = 0; f < 2 * D; ++f)
        this->farea[f] = vp_in_d("face area of edge", i * 2 * D + f);
    }
    template <uint n, class F> Point<S, double> lexicographic(uint index, const SmallVec<n, F>& p) const
    {
      Point<S, double> r;
      for (uint j = 0; j < S; ++j)
        r[j] = vp_fn_d("point", 5, (double)idx, (double)index, (double)j, (double)p[0], (double)p[n - 1]);
      return r;
    }
    template <uint n, class F> Point<S, double> boundary_lexicographic(uint index, uint bdr, float scale, const SmallVec<n, F>& p) const
    {
      Point<S, double> r;
      for (uint j = 0; j < S; ++j)
        r[j] = vp_fn_d("boundary point", 7, (double)idx, (double)index, (double)bdr, (double)j, (double)scale, (double)p[0], (double)p[n - 1]);
      return r;
    }
  };
  typedef MockCtor constructor_value_type;
  uint ref = 1;
  FGeom(const MockCtor&) {}
  FGeom(const MockTopo<D, S, 0>&) {}
  static constexpr uint hyEdge_dim() { return D; }
  static constexpr uint space_dim() { return S; }
  const value_type operator[](const uint i) const { return value_type(i); }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <uint D, uint S> struct FNode
{
  struct value_type
  {
    uint idx;
    uint operator[](const uint k) const { return vp_in_u("type of face", idx * 2 * D + k); }
  };
  typedef MockCtor constructor_value_type;
  uint ref = 1;
  FNode(const MockTopo<D, S, 0>&) {}
  const value_type operator[](const uint i) const { return value_type{i}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <template <class, class, class, class, class, class> class GL, class LS, uint S>
using Loop = GL<MockTopo<LS::hyEdge_dim(), S, 0>, FGeom<LS::hyEdge_dim(), S>, FNode<LS::hyEdge_dim(), S>, LS, std::vector<double>, uint>;

// the hyperedge as a local solver sees it
template <class LS, uint S> struct FEdge
{
  static constexpr uint D = LS::hyEdge_dim();
  typename MockTopo<D, S, 0>::value_type topology;
  typename FGeom<D, S>::value_type geometry;
  typename FNode<D, S>::value_type node_descriptor;
  typename LS::data_type data;
  FEdge(uint i) : topology{i, 1, 0}, geometry(i), node_descriptor{i}, data() {}
};
template <class LS> typename LS::constructor_value_type ctor()
{
  if constexpr (std::is_same_v<typename LS::constructor_value_type, double>)
    return vp_in_d("tau", 0);
  else
    return std::vector<double>{vp_in_d("tau", 0), vp_in_d("theta", 0), vp_in_d("dt", 0)};
}
#define DIRECT(name)                                                                              \
  template <class LS, class L, class E> void d_##name(const LS& s, L& o, L& r, E& e, double t)   \
  {                                                                                               \
    if constexpr (requires { s.name(o, r, e, t); })                                               \
      s.name(o, r, e, t);                                                                         \
    else if constexpr (requires { s.name(o, r, t); })                                             \
      s.name(o, r, t);                                                                            \
    else                                                                                          \
      vp_true("the local solver offers " #name, false);                                           \
  }
DIRECT(trace_to_flux)
DIRECT(residual_flux)
DIRECT(trace_to_mass_flux)
template <class LS, class L, class E> void d_jac(const LS& s, L& o, L& r, double t, L& v, double tv, E& e)
{
  if constexpr (requires { s.jacobian_of_trace_to_flux(o, r, t, v, tv, e); })
    s.jacobian_of_trace_to_flux(o, r, t, v, tv, e);
  else if constexpr (requires { s.jacobian_of_trace_to_flux(o, r, t, v, tv); })
    s.jacobian_of_trace_to_flux(o, r, t, v, tv);
  else
    vp_true("the local solver offers jacobian_of_trace_to_flux", false);
}
template <class LS, class L, class E> auto d_errors(const LS& s, L& o, E& e, double t)
{
  if constexpr (requires { s.errors(o, e, t); })
    return s.errors(o, e, t);
  else if constexpr (requires { s.errors(o, t); })
    return s.errors(o, t);
  else
  {
    vp_true("the local solver offers errors", false);
    return LS::error_def::initial_error();
  }
}
template <class LS, class L, class E> void d_initial(const LS& s, L& o, E& e, double t)
{
  if constexpr (requires { s.make_initial(o, e, t); })
    s.make_initial(o, e, t);
  else if constexpr (requires { s.make_initial(o, t); })
    s.make_initial(o, t);
  else
    vp_true("the local solver offers make_initial", false);
}
template <class LS, class L, class E> void d_set_data(const LS& s, L& o, E& e, double t)
{
  if constexpr (requires { s.set_data(o, e, t); })
    s.set_data(o, e, t);
  else if constexpr (requires { s.set_data(o, t); })
    s.set_data(o, t);
  else
    vp_true("the local solver offers set_data", false);
}
template <class LS> struct Fit
{
  static constexpr uint D = LS::hyEdge_dim(), n = LS::n_glob_dofs_per_node();
  typedef Loc<D, n> L;
  static uint nodes(uint ne) { return ne * (2 * D - 1) + 1; }
  static std::vector<double> vec(const char* tag, uint ne)
  {
    std::vector<double> v(nodes(ne) * n);
    for (uint i = 0; i < v.size(); ++i)
      v[i] = vp_in_d(tag, i);
    return v;
  }
  static L gather(const std::vector<double>& x, uint e)
  {
    L o;
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < n; ++j)
        o[f][j] = x[conn<0, D>(e, f) * n + j];
    return o;
  }
  static void scatter(std::vector<double>& y, uint e, const L& r)
  {
    for (uint f = 0; f < 2 * D; ++f)
      for (uint j = 0; j < n; ++j)
        y[conn<0, D>(e, f) * n + j] += r[f][j];
  }
  static L zero()
  {
    L r;
    for (uint f = 0; f < 2 * D; ++f)
      r[f].fill(0.);
    return r;
  }
};
inline void cmp(const char* what, const std::vector<double>& got, const std::vector<double>& want)
{
  vp_true("size of the result", got.size() == want.size());
  for (uint i = 0; i < want.size(); ++i)
    vp_eq_d(what, i, got[i], want[i]);
}
#define FIT_START(CLS)                                      \
  vp_lapack_ok();                                           \
  typedef Fit<LS> H;                                        \
  const double t = vp_in_d("time", 0);                      \
  const LS s(ctor<LS>());                                   \
  Loop<GlobalLoop::CLS, LS, S> g(MockCtor{ne, H::nodes(ne), 0}, ctor<LS>()); \
  const std::vector<double> x = H::vec("x", ne);            \
  std::vector<double> want(x.size(), 0.);
#define FIT_OP(fname, CLS, method)                          \
  template <class LS, uint S, uint ne> void fname()         \
  {                                                         \
    FIT_START(CLS)                                          \
    for (uint e = 0; e < ne; ++e)                           \
    {                                                       \
      FEdge<LS, S> ed(e);                                   \
      auto o = H::gather(x, e), r = H::zero();              \
      d_##method(s, o, r, ed, t);                           \
      H::scatter(want, e, r);                               \
    }                                                       \
    cmp(#method, g.method(x, t), want);                     \
  }
FIT_OP(ell_flux, Elliptic, trace_to_flux)
FIT_OP(ell_residual, Elliptic, residual_flux)
FIT_OP(mass_flux, MassApproxEigenvalue, trace_to_flux)
FIT_OP(mass_mass, MassApproxEigenvalue, trace_to_mass_flux)
FIT_OP(shift_flux, ShiftedInverseEigenvalue, trace_to_flux)
FIT_OP(nl_flux, NonlinearEigenvalue, trace_to_flux)
template <class LS, uint S, uint ne> void nl_jac()
{
  FIT_START(NonlinearEigenvalue)
  const std::vector<double> v = H::vec("v", ne);
  const double tv = vp_in_d("eigenvalue", 0);
  for (uint e = 0; e < ne; ++e)
  {
    FEdge<LS, S> ed(e);
    auto o = H::gather(x, e), r = H::zero(), w = H::gather(v, e);
    d_jac(s, o, r, t, w, tv, ed);
    H::scatter(want, e, r);
  }
  cmp("jacobian_of_trace_to_flux", g.jacobian_of_trace_to_flux(x, t, v, tv), want);
}
template <class LS, class V, class H, uint S, uint ne> V error_sum(const LS& s, const std::vector<double>& x, double t)
{
  typedef typename LS::error_def E;
  auto sum = E::initial_error();
  for (uint e = 0; e < ne; ++e)
  {
    FEdge<LS, S> ed(e);
    auto o = H::gather(x, e);
    sum = E::sum_error(sum, d_errors(s, o, ed, t));
  }
  sum = E::postprocess_error(sum);
  return V(sum.begin(), sum.end());
}
template <class LS, uint S, uint ne> void ell_errors()
{
  FIT_START(Elliptic)
  const auto r = g.errors(x, t);
  cmp("errors", std::vector<double>(r.begin(), r.end()), error_sum<LS, std::vector<double>, H, S, ne>(s, x, t));
}
template <class LS, uint S, uint ne> void ell_matrix()
{
  FIT_START(Elliptic)
  auto m = g.trace_to_flux_mat(t);
  const uint N = x.size();
  std::vector<double> got(N * N, 0.), w(N * N, 0.);
  for (uint k = 0; k < m.get_rows().size(); ++k)
    got[m.get_rows()[k] * N + m.get_cols()[k]] += m.get_values()[k];
  for (uint e = 0; e < ne; ++e)
  {
    FEdge<LS, S> ed(e);
    for (uint f = 0; f < 2 * H::D; ++f)
      for (uint j = 0; j < H::n; ++j)
      {
        auto o = H::zero(), r = H::zero();
        o[f][j] = 1.;
        d_trace_to_flux(s, o, r, ed, t);
        for (uint f2 = 0; f2 < 2 * H::D; ++f2)
          for (uint i = 0; i < H::n; ++i)
            w[(conn<0, H::D>(e, f2) * H::n + i) * N + conn<0, H::D>(e, f) * H::n + j] += r[f2][i];
      }
  }
  cmp("trace_to_flux_mat", got, w);
}
// initial values of the hyperedge, then one step with them and with the data of a later time
template <class LS, uint S, uint ne> void par_steps()
{
  FIT_START(Parabolic)
  const double t2 = vp_in_d("time", 1), t3 = vp_in_d("time", 2);
  FEdge<LS, S> ed(0);
  auto o = H::zero(), r = H::zero();
  d_initial(s, o, ed, t);
  H::scatter(want, 0, o);
  cmp("make_initial", g.make_initial(x, t), want);
  auto step = [&](const char* what, double tt)
  {
    std::vector<double> y(x.size(), 0.);
    auto a = H::gather(x, 0), b = H::zero();
    d_residual_flux(s, a, b, ed, tt);
    H::scatter(y, 0, b);
    cmp(what, g.residual_flux(x, tt), y);
  };
  step("residual_flux after make_initial", t2);
  o = H::gather(x, 0);
  d_set_data(s, o, ed, t2);
  g.set_data(x, t2);
  step("residual_flux after set_data", t3);
}
FIT_OP(par_flux, Parabolic, trace_to_flux)
template <class LS, uint S, uint ne> void par_errors()
{
  FIT_START(Parabolic)
  typedef typename LS::error_def E;
  std::vector<FEdge<LS, S>> ed;
  const std::vector<double> y = H::vec("y", ne);
  const double t0 = vp_in_d("time", 1);
  auto sum = E::initial_error();
  for (uint e = 0; e < ne; ++e)
  {
    FEdge<LS, S> d(e);
    auto o = H::gather(y, e);
    d_set_data(s, o, d, t0);
    o = H::gather(x, e);
    sum = E::sum_error(sum, d_errors(s, o, d, t));
  }
  sum = E::postprocess_error(sum);
  g.set_data(y, t0);
  cmp("errors", g.errors(x, t), std::vector<double>(sum.begin(), sum.end()));
}
template <class LS, uint S, uint ne> void nl_initial()
{
  FIT_START(NonlinearEigenvalue)
  FEdge<LS, S> ed(0);
  auto o = H::zero();
  d_initial(s, o, ed, t);
  H::scatter(want, 0, o);
  cmp("make_initial", g.make_initial(x, t), want);
}
// the plot shows the values of the local solver itself
template <class LS, class A, class L, class E> auto d_bulk(const LS& s, const A& a, L& o, E& e, double t)
{
  if constexpr (requires { s.bulk_values(a, o, e, t); })
    return s.bulk_values(a, o, e, t);
  else if constexpr (requires { s.bulk_values(a, o, t); })
    return s.bulk_values(a, o, t);
  else
  {
    vp_true("the local solver offers bulk_values", false);
    return std::array<std::array<double, 1u << LS::hyEdge_dim()>, LS::system_dimension()>();
  }
}
#define FIT_PLOT(fname, CLS)                                                                                  \
  template <class LS, uint S, uint ne> void fname()                                                           \
  {                                                                                                           \
    FIT_START(CLS)                                                                                            \
    g.plot_option("fileName", "sol");                                                                         \
    if constexpr (requires { g.set_data(x, t); })                                                             \
      g.set_data(x, t);                                                                                       \
    g.plot_solution(x, t);                                                                                    \
    const std::string name = "output/sol.0.vtu";                                                              \
    vp_vtu_("well-formed file", &name);                                                                       \
    constexpr uint P = 1u << H::D, sd = LS::system_dimension(), nd = LS::node_system_dimension(), c = sd > nd ? sd : nd; \
    vp_eq_u("number of values", 0, vp_vtu_n("len values"), ne * P * c);                                       \
    for (uint e = 0; e < ne; ++e)                                                                             \
    {                                                                                                         \
      FEdge<LS, S> ed(e);                                                                                     \
      auto o = H::gather(x, e);                                                                               \
      if constexpr (requires { g.set_data(x, t); })                                                           \
        d_set_data(s, o, ed, t);                                                                              \
      o = H::gather(x, e);                                                                                    \
      const auto v = d_bulk(s, std::array<float, 2>{0.f, 1.f}, o, ed, t);                                     \
      for (uint k = 0; k < P; ++k)                                                                            \
        for (uint j = 0; j < c; ++j)                                                                          \
          vp_eq_d("value in the plot", (e * P + k) * c + j, vp_vtu_d("values", (e * P + k) * c + j), j < sd ? v[j][k] : 0.); \
    }                                                                                                         \
  }
FIT_PLOT(ell_plot, Elliptic)
FIT_PLOT(par_plot, Parabolic)
FIT_PLOT(mass_plot, MassApproxEigenvalue)
FIT_PLOT(nl_plot, NonlinearEigenvalue)
FIT_PLOT(shift_plot, ShiftedInverseEigenvalue)
