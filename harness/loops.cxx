// Specification units: global loops (matrix-free operators, assembly, Dirichlet handling, errors, time stepping data).
//@headers global_loop/elliptic.hxx global_loop/parabolic.hxx global_loop/mass_approx_eigenvalue.hxx global_loop/nonlinear_eigenvalue.hxx global_loop/shifted_inverse_eigenvalue.hxx global_loop/prototype.hxx
#include <HyperHDG/hy_assert.hxx>
#include <array>
#include <vector>
#include <algorithm>
#include <string>
#include <HyperHDG/hypercube.hxx>
#include "mock.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

// kind 0: local solver methods without hyperedge argument, 1: with hyperedge argument
// Every method adds an opaque function of (edge, face, dof, parameter, all trace values) to its output and
// overwrites its (scratch) input, which callers must not rely on.
struct LData
{
  double v = 0;
};
template <class T, uint n, uint F> using Loc = std::array<std::array<T, n>, F>;
// reference: opaque local result, as a function of the edge (0 if the solver is not told), face, dof
template <class T, uint n, uint F> T opq(const char* tag, uint e, uint i, uint j, T t, const Loc<T, n, F>& o, T x = 0)
{
  // up to 8 trace values
  T a[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  for (uint f = 0; f < F; ++f)
    for (uint d = 0; d < n; ++d)
      a[f * n + d] = o[f][d];
  return vp_fn_d(tag, 13, (double)e, (double)i, (double)j, (double)t, (double)x, (double)a[0], (double)a[1], (double)a[2], (double)a[3],
                 (double)a[4], (double)a[5], (double)a[6], (double)a[7]);
}
template <class T, uint n, uint F> void clobber(Loc<T, n, F>& o)
{
  for (uint f = 0; f < F; ++f)
    for (uint d = 0; d < n; ++d)
      o[f][d] = vp_fn_d("clobbered", 1, (double)o[f][d]);
}
template <class T, uint n> struct Err
{
  typedef std::array<T, 2> error_t;
  static error_t initial_error() { return error_t{(T)vp_in_d("init error", 0), (T)vp_in_d("init error", 1)}; }
  static error_t sum_error(const error_t& a, const error_t& b) { return error_t{a[0] + b[0], a[1] + b[1]}; }
  static error_t postprocess_error(const error_t& a) { return error_t{(T)vp_fn_d("post", 1, (double)a[0]), (T)vp_fn_d("post", 1, (double)a[1])}; }
};
template <class T, uint dim, uint n, uint kind> struct Sol
{
  static constexpr uint F = 2 * dim;
  typedef Loc<T, n, F> L;
  typedef LData data_type;
  typedef Err<T, n> error_def;
  typedef uint constructor_value_type;
  uint par;
  Sol(const uint& p = 4711) : par(p) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint n_glob_dofs_per_node() { return n; }
  static constexpr uint system_dimension() { return 1; }
  static constexpr uint node_system_dimension() { return 1; }
  L& out(const char* tag, uint e, L& o, L& r, T t, T x) const
  {
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        r[i][j] += opq<T, n, F>(tag, e, i, j, t, o, x);
    clobber<T, n, F>(o);
    return r;
  }
#define METHOD(name)                                                                                                  \
  L& name(L& o, L& r, T t) const requires(kind == 0) { return out(#name, 0, o, r, t, 0); }                             \
  template <class E> L& name(L& o, L& r, E& e, T t) const requires(kind == 1) { return out(#name, 1 + e.topology.idx + 10 * e.geometry.idx + 100 * e.node_descriptor.idx, o, r, t, e.data.v); }
  METHOD(trace_to_flux)
  METHOD(residual_flux)
  METHOD(trace_to_mass_flux)
  L& jacobian_of_trace_to_flux(L& o, L& r, T t, L& v, T tv) const requires(kind == 0)
  {
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        r[i][j] += opq<T, n, F>("jac", 0, i, j, t, o) * opq<T, n, F>("jacval", 0, i, j, tv, v);
    clobber<T, n, F>(o);
    clobber<T, n, F>(v);
    return r;
  }
  template <class E> L& jacobian_of_trace_to_flux(L& o, L& r, T t, L& v, T tv, E& e) const requires(kind == 1)
  {
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        r[i][j] += opq<T, n, F>("jac", e.topology.idx, i, j, t, o) * opq<T, n, F>("jacval", e.geometry.idx, i, j, tv, v);
    clobber<T, n, F>(o);
    clobber<T, n, F>(v);
    return r;
  }
  // initial values depend on the hypernode only, as a consistent local solver's do
  template <class E> L& make_initial(L& o, E& e, T t) const requires(kind == 1)
  {
    auto nodes = e.topology.get_hyNode_indices();
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        o[i][j] = vp_fn_d("initial", 5, (double)nodes[i], (double)j, (double)t, (double)o[i][j], (double)par);
    return o;
  }
  L& make_initial(L& o, T t) const requires(kind == 0)
  {
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        o[i][j] = vp_fn_d("initial", 3, (double)t, (double)o[i][j], (double)par);
    return o;
  }
  template <class E> void set_data(L& o, E& e, T t) const requires(kind == 1)
  {
    e.data.v = opq<T, n, F>("data", e.topology.idx, 0, 0, t, o, e.data.v);
    clobber<T, n, F>(o);
  }
  typedef typename error_def::error_t error_t;
  error_t errors(L& o, T t) const requires(kind == 0)
  {
    error_t r{opq<T, n, F>("err", 0, 0, 0, t, o), opq<T, n, F>("err", 0, 1, 0, t, o)};
    clobber<T, n, F>(o);
    return r;
  }
  template <class E> error_t errors(L& o, E& e, T t) const requires(kind == 1)
  {
    error_t r{opq<T, n, F>("err", e.topology.idx, 0, 0, t, o, e.data.v), opq<T, n, F>("err", e.geometry.idx, 1, 0, t, o)};
    clobber<T, n, F>(o);
    return r;
  }
  template <class E> std::array<uint, F> node_types(E& e) const
  {
    std::array<uint, F> r;
    for (uint i = 0; i < F; ++i)
      r[i] = ntype(e.topology.idx, i, par);
    return r;
  }
  static constexpr uint ntype(uint e, uint i, uint par) { return (e * 5 + i * 3 + par) % 4; }
};
template <template <class, class, class, class, class, class> class GL, class T, uint d, uint n, uint kind, uint id>
using Loop = GL<MockTopo<d, d, id>, MockGeom<d, d, id>, MockNode<d, d, id>, Sol<T, d, n, kind>, std::vector<T>, uint>;

template <class T> std::vector<T> vec(const char* tag, uint n)
{
  std::vector<T> v(n);
  for (uint i = 0; i < n; ++i)
    v[i] = vp_in<T>::get(tag, i);
  return v;
}
template <class T> void same(const std::vector<T>& v, const char* tag, uint n, const char* what)
{
  vp_true(what, v.size() == n);
  for (uint i = 0; i < n; ++i)
    vp_eq_d(what, i, v[i], vp_in<T>::get(tag, i));
}
template <class T, uint d, uint n, uint id> Loc<T, n, 2 * d> gather(uint e, const char* tag)
{
  Loc<T, n, 2 * d> o;
  for (uint i = 0; i < 2 * d; ++i)
    for (uint j = 0; j < n; ++j)
      o[i][j] = vp_in<T>::get(tag, conn<id, d>(e, i) * n + j);
  return o;
}
constexpr uint NN = 8;  // hypernodes
// sum of the local results scattered to the global vector
template <class T, uint d, uint n, uint kind, uint id, uint ne> std::array<T, NN * n> want_op(const char* m, T t, const char* x, const T* data = nullptr)
{
  std::array<T, NN * n> w;
  w.fill(0);
  for (uint e = 0; e < ne; ++e)
  {
    Loc<T, n, 2 * d> o = gather<T, d, n, id>(e, x);
    for (uint i = 0; i < 2 * d; ++i)
      for (uint j = 0; j < n; ++j)
        w[conn<id, d>(e, i) * n + j] += opq<T, n, 2 * d>(m, kind == 0 ? 0 : 1 + 111 * e, i, j, t, o, data ? data[e] : T(0));
  }
  return w;
}
template <class T, class V, class W> void cmp(const char* what, const V& got, const W& want)
{
  vp_true(what, got.size() == want.size());
  for (uint i = 0; i < want.size(); ++i)
    vp_eq_d(what, i, got[i], want[i]);
}

// ------------------------------------------------------------------------------------------------
// matrix-free operators
// ------------------------------------------------------------------------------------------------
#define OPERATOR_UNIT(fname, CLS, method)                                                                              \
  template <class T, uint d, uint n, uint kind, uint id, uint ne> void fname()                                         \
  {                                                                                                                    \
    Loop<GlobalLoop::CLS, T, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);                                              \
    const std::vector<T> x = vec<T>("x", NN * n);                                                                      \
    const T t = vp_in<T>::get("t", 0), t2 = vp_in<T>::get("t", 1);                                                     \
    auto y = g.method(x, t);                                                                                           \
    cmp<T>(#method, y, want_op<T, d, n, kind, id, ne>(#method, t, "x"));                                               \
    const std::vector<T> x2 = vec<T>("x2", NN * n);                                                                    \
    auto y2 = g.method(x2, t2);                                                                                        \
    cmp<T>(#method " second call", y2, want_op<T, d, n, kind, id, ne>(#method, t2, "x2"));                             \
    auto y3 = g.method(x);                                                                                             \
    cmp<T>(#method " default parameter", y3, want_op<T, d, n, kind, id, ne>(#method, T(0), "x"));                      \
    same<T>(x, "x", NN * n, "argument unchanged");                                                                     \
    same<T>(x2, "x2", NN * n, "second argument unchanged");                                                            \
    vp_eq_u("size_of_system", 0, g.size_of_system(), NN * n);                                                          \
  }
//@unit P10 ell_flux<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 ell_flux<double,1,{n},1,0,7> n=1,4
//@unit P10 ell_flux<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 ell_flux<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
//@unit P10 ell_flux<float,1,1,1,0,2>
OPERATOR_UNIT(ell_flux, Elliptic, trace_to_flux)
//@unit P10 ell_res<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 ell_res<double,1,{n},1,0,7> n=1,4
//@unit P10 ell_res<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 ell_res<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
//@unit P10 ell_res<float,1,1,1,0,2>
OPERATOR_UNIT(ell_res, Elliptic, residual_flux)
//@unit P10 par_flux<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 par_flux<double,1,{n},1,0,7> n=1,4
//@unit P10 par_flux<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 par_flux<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(par_flux, Parabolic, trace_to_flux)
//@unit P10 par_res<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 par_res<double,1,{n},1,0,7> n=1,4
//@unit P10 par_res<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 par_res<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(par_res, Parabolic, residual_flux)
//@unit P10 mass_flux<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 mass_flux<double,1,{n},1,0,7> n=1,4
//@unit P10 mass_flux<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 mass_flux<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(mass_flux, MassApproxEigenvalue, trace_to_flux)
//@unit P10 mass_mass<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 mass_mass<double,1,{n},1,0,7> n=1,4
//@unit P10 mass_mass<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 mass_mass<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(mass_mass, MassApproxEigenvalue, trace_to_mass_flux)
//@unit P10 shift_flux<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 shift_flux<double,1,{n},1,0,7> n=1,4
//@unit P10 shift_flux<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 shift_flux<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(shift_flux, ShiftedInverseEigenvalue, trace_to_flux)
//@unit P10 nl_flux<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 nl_flux<double,1,{n},1,0,7> n=1,4
//@unit P10 nl_flux<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 nl_flux<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
OPERATOR_UNIT(nl_flux, NonlinearEigenvalue, trace_to_flux)

//@unit P10 nl_jac<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P10 nl_jac<double,1,{n},1,0,7> n=1,4
//@unit P10 nl_jac<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P10 nl_jac<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
template <class T, uint d, uint n, uint kind, uint id, uint ne> void nl_jac()
{
  Loop<GlobalLoop::NonlinearEigenvalue, T, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  const std::vector<T> x = vec<T>("x", NN * n), v = vec<T>("v", NN * n);
  T t = vp_in<T>::get("t", 0), tv = vp_in<T>::get("t", 1);
  auto y = g.jacobian_of_trace_to_flux(x, t, v, tv);
  std::array<T, NN * n> w;
  w.fill(0);
  for (uint e = 0; e < ne; ++e)
  {
    auto o = gather<T, d, n, id>(e, "x"), u = gather<T, d, n, id>(e, "v");
    for (uint i = 0; i < 2 * d; ++i)
      for (uint j = 0; j < n; ++j)
        w[conn<id, d>(e, i) * n + j] += opq<T, n, 2 * d>("jac", kind * e, i, j, t, o) * opq<T, n, 2 * d>("jacval", kind * e, i, j, tv, u);
  }
  cmp<T>("jacobian", y, w);
  same<T>(x, "x", NN * n, "direction unchanged");
  same<T>(v, "v", NN * n, "value unchanged");
}

// ------------------------------------------------------------------------------------------------
// constructors and trivial queries
// ------------------------------------------------------------------------------------------------
#define CTOR_UNIT(fname, CLS)                                                                                          \
  template <uint w> void fname()                                                                                       \
  {                                                                                                                    \
    typedef Loop<GlobalLoop::CLS, double, 1, 1, 1, 0> G;                                                               \
    MockCtor c{2, NN, vp_in_u("mark", 0)}, q{2, NN, vp_in_u("gmark", 0)};                                              \
    G g = w == 0 ? G(c) : w == 1 ? G(c, 5u) : G(c, q, 6u);                                                             \
    vp_eq_u("size_of_system", 0, g.size_of_system(), NN);                                                              \
    vp_eq_u("get_refinement", 0, g.get_refinement(), 1);                                                               \
    g.set_refinement(3);                                                                                               \
    vp_eq_u("get_refinement after set", 0, g.get_refinement(), 3);                                                     \
    vp_eq_u("size_of_system after refinement", 0, g.size_of_system(), 3 * NN);                                         \
  }
//@unit P10,P08 ell_ctor<{w}> w=0,1,2
CTOR_UNIT(ell_ctor, Elliptic)
//@unit P10,P08 par_ctor<{w}> w=0,1,2
CTOR_UNIT(par_ctor, Parabolic)
//@unit P10,P08 mass_ctor<{w}> w=0,1,2
CTOR_UNIT(mass_ctor, MassApproxEigenvalue)
//@unit P10,P08 shift_ctor<{w}> w=0,1,2
CTOR_UNIT(shift_ctor, ShiftedInverseEigenvalue)
//@unit P10,P08 nl_ctor<{w}> w=0,1,2
CTOR_UNIT(nl_ctor, NonlinearEigenvalue)
//@unit P10 zero_vec<{n}> n=1,2,3
template <uint n> void zero_vec()
{
  Loop<GlobalLoop::Elliptic, double, 1, n, 1, 0> g(MockCtor{2, NN, 0});
  Loop<GlobalLoop::Parabolic, double, 1, n, 1, 0> h(MockCtor{2, NN, 0});
  auto z = g.zero_vector(), y = h.zero_vector();
  vp_true("size", z.size() == NN * n && y.size() == NN * n);
  for (uint i = 0; i < NN * n; ++i)
  {
    vp_eq_d("zero", i, z[i], 0.);
    vp_eq_d("zero (parabolic)", i, y[i], 0.);
  }
}

// ------------------------------------------------------------------------------------------------
// assembled matrix
// ------------------------------------------------------------------------------------------------
template <class T, uint dim, uint n, uint kind> struct LinSol : Sol<T, dim, n, kind>
{
  using Sol<T, dim, n, kind>::Sol;
  typedef typename Sol<T, dim, n, kind>::L L;
  static constexpr uint F = 2 * dim;
  static T K(uint e, uint i, uint j, uint k, uint l, T t) { return vp_fn_d("K", 6, (double)e, (double)i, (double)j, (double)k, (double)l, (double)t); }
  L& apply(uint e, L& o, L& r, T t) const
  {
    for (uint i = 0; i < F; ++i)
      for (uint j = 0; j < n; ++j)
        for (uint k = 0; k < F; ++k)
          for (uint l = 0; l < n; ++l)
            r[i][j] += K(e, i, j, k, l, t) * o[k][l];
    clobber<T, n, F>(o);
    return r;
  }
  L& trace_to_flux(L& o, L& r, T t) const requires(kind == 0) { return apply(0, o, r, t); }
  template <class E> L& trace_to_flux(L& o, L& r, E& e, T t) const requires(kind == 1) { return apply(1 + e.topology.idx, o, r, t); }
};
//@unit P11 assemble<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne*n<=4)&((id==0)|(ne>1))
//@unit P11 assemble<double,1,{n},1,0,7> n=1,4
//@unit P11 assemble<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P11 assemble<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
//@unit P11 assemble<float,1,2,1,0,2>
template <class T, uint d, uint n, uint kind, uint id, uint ne> void assemble()
{
  typedef LinSol<T, d, n, kind> S;
  GlobalLoop::Elliptic<MockTopo<d, d, id>, MockGeom<d, d, id>, MockNode<d, d, id>, S, std::vector<T>, uint> g(MockCtor{ne, NN, 0}, 17u);
  T t = vp_in<T>::get("t", 0);
  auto m = g.trace_to_flux_mat(t);
  auto m0 = g.trace_to_flux_mat();
  std::vector<T> x = vec<T>("x", NN * n);
  auto y = g.trace_to_flux(x, t);
  constexpr uint N = NN * n;
  vp_true("triplet vectors have equal length", m.get_values().size() == m.get_rows().size() && m.get_rows().size() == m.get_cols().size());
  vp_eq_p("values", &m.get_values(), &m.value_vec);
  std::array<T, N * N> D, W, D0, W0;
  D.fill(0);
  W.fill(0);
  D0.fill(0);
  W0.fill(0);
  for (uint k = 0; k < m.get_rows().size(); ++k)
  {
    uint r = m.get_rows()[k], c = m.get_cols()[k];
    vp_true("row index in range", r < N);
    vp_true("column index in range", c < N);
    D[r * N + c] += m.get_values()[k];
  }
  for (uint k = 0; k < m0.get_rows().size(); ++k)
    D0[m0.get_rows()[k] * N + m0.get_cols()[k]] += m0.get_values()[k];
  for (uint e = 0; e < ne; ++e)
    for (uint i = 0; i < 2 * d; ++i)
      for (uint j = 0; j < n; ++j)
        for (uint k = 0; k < 2 * d; ++k)
          for (uint l = 0; l < n; ++l)
          {
            uint p = (conn<id, d>(e, i) * n + j) * N + conn<id, d>(e, k) * n + l;
            W[p] += S::K(kind ? 1 + e : 0, i, j, k, l, t);
            W0[p] += S::K(kind ? 1 + e : 0, i, j, k, l, T(0));
          }
  for (uint i = 0; i < N * N; ++i)
  {
    vp_eq_d("assembled entry", i, D[i], W[i]);
    vp_eq_d("assembled entry, default parameter", i, D0[i], W0[i]);
  }
  for (uint i = 0; i < N; ++i)
  {
    T s = 0;
    for (uint j = 0; j < N; ++j)
      s += D[i * N + j] * x[j];
    vp_eq_d("matrix-free product equals assembled product", i, y[i], s);
  }
}

// ------------------------------------------------------------------------------------------------
// Dirichlet indices
// ------------------------------------------------------------------------------------------------
template <uint l> std::vector<uint> dlist()
{
  if constexpr (l == 0)
    return {};
  else if constexpr (l == 1)
    return {3};
  else if constexpr (l == 2)
    return {5, 1, 5, 0, 1};
  else if constexpr (l == 3)
    return {7, 6, 5, 4, 3, 2, 1, 0};
  else
    return {0, 0, 7};
}
template <uint l> bool indl(uint i)
{
  for (uint k : dlist<l>())
    if (k == i)
      return true;
  return false;
}
//@unit P12 dirichlet_zero<{n},{l},{m}> n=1,2 l=0,1,2,3,4 m=0,1
template <uint n, uint l, uint m> void dirichlet_zero()
{
  constexpr uint d = 1, kind = 1, id = 0, ne = 3;
  Loop<GlobalLoop::Elliptic, double, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  std::vector<uint> in = dlist<l>();
  const std::vector<uint>& cin = in;
  g.read_dirichlet_indices(cin);
  for (uint i = 0; i < in.size(); ++i)
    vp_eq_u("index list unchanged", i, in[i], dlist<l>()[i]);
  std::vector<double> x = vec<double>("x", NN * n);
  double t = vp_in_d("t", 0);
  auto y = m == 0 ? g.trace_to_flux(x, t) : g.residual_flux(x, t);
  auto w = want_op<double, d, n, kind, id, ne>(m == 0 ? "trace_to_flux" : "residual_flux", t, "x");
  vp_true("size", y.size() == NN * n);
  for (uint i = 0; i < NN * n; ++i)
    vp_eq_d("value", i, y[i], indl<l>(i) ? 0. : w[i]);
  // a new list replaces the old one
  g.read_dirichlet_indices(std::vector<uint>{2});
  y = m == 0 ? g.trace_to_flux(x, t) : g.residual_flux(x, t);
  for (uint i = 0; i < NN * n; ++i)
    vp_eq_d("value after replacing the list", i, y[i], i == 2 ? 0. : w[i]);
}
//@unit P12 dirichlet_any<{n},{m}> n=1,2 m=0,1
template <uint n, uint m> void dirichlet_any()
{
  constexpr uint d = 1, kind = 1, id = 0, ne = 2;
  Loop<GlobalLoop::Elliptic, double, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  uint k = vp_in_u("k", 0);
  VP_ABORT_IFF(k >= NN * n);
  g.read_dirichlet_indices(std::vector<uint>{k});
  std::vector<double> x = vec<double>("x", NN * n);
  double t = vp_in_d("t", 0);
  auto y = m == 0 ? g.trace_to_flux(x, t) : g.residual_flux(x, t);
  auto w = want_op<double, d, n, kind, id, ne>(m == 0 ? "trace_to_flux" : "residual_flux", t, "x");
  for (uint i = 0; i < NN * n; ++i)
    vp_eq_d("value", i, y[i], i == k ? 0. : w[i]);
}
//@unit P12 dirichlet_pos<{n},{m},{len},{pos}> n=1,2 m=0,1 len=2,3,4 pos=0,1,2,3 if=pos<len
template <uint n, uint m, uint len, uint pos> void dirichlet_pos()
{
  constexpr uint d = 1, kind = 1, id = 0, ne = 2;
  Loop<GlobalLoop::Elliptic, double, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  bool z[NN * n];
  for (uint i = 0; i < NN * n; ++i)
    z[i] = false;
  std::vector<uint> l(len);
  for (uint i = 0; i < len; ++i)
  {
    l[i] = i == pos ? NN * n - 1 : (5 * i + 2) % (NN * n);
    z[l[i]] = true;
  }
  g.read_dirichlet_indices(l);
  std::vector<double> x = vec<double>("x", NN * n);
  double t = vp_in_d("t", 0);
  auto y = m == 0 ? g.trace_to_flux(x, t) : g.residual_flux(x, t);
  auto w = want_op<double, d, n, kind, id, ne>(m == 0 ? "trace_to_flux" : "residual_flux", t, "x");
  for (uint i = 0; i < NN * n; ++i)
    vp_eq_d("value", i, y[i], z[i] ? 0. : w[i]);
}
//@unit P12 dirichlet_past<{n},{len},{pos},{v}> n=1,2 len=2,3,4 pos=0,1,2,3 v=0,1,1000 if=pos<len mode=debug
template <uint n, uint len, uint pos, uint v> void dirichlet_past()
{
  Loop<GlobalLoop::Elliptic, double, 1, n, 1, 0> g(MockCtor{2, NN, 0}, 17u);
  std::vector<uint> l(len);
  for (uint i = 0; i < len; ++i)
    l[i] = i == pos ? NN * n + v : (5 * i + 2) % (NN * n);
  VP_ABORT_IFF(true);
  g.read_dirichlet_indices(l);
  vp_unreach("a dof that does not exist was prescribed");
}
#define DIRICHLET_LIST_UNIT(fname, CLS)                                                                                \
  template <uint d, uint n, uint id, uint ne, uint par> void fname()                                                   \
  {                                                                                                                    \
    Loop<GlobalLoop::CLS, double, d, n, 1, id> g(MockCtor{ne, NN, 0}, par);                                            \
    for (uint pass = 0; pass < 3; ++pass)                                                                              \
    {                                                                                                                  \
      uint e_now = ne;                                                                                                 \
      auto l = g.dirichlet_indices();                                                                                  \
      bool is[NN * n];                                                                                                 \
      uint cnt = 0;                                                                                                    \
      for (uint i = 0; i < NN * n; ++i)                                                                                \
        is[i] = false;                                                                                                 \
      for (uint e = 0; e < e_now; ++e)                                                                                 \
        for (uint i = 0; i < 2 * d; ++i)                                                                               \
          if (Sol<double, d, n, 1>::ntype(e, i, par) == 1)                                                             \
            for (uint j = 0; j < n; ++j)                                                                               \
              is[conn<id, d>(e, i) * n + j] = true;                                                                    \
      for (uint i = 0; i < NN * n; ++i)                                                                                \
        if (is[i])                                                                                                     \
        {                                                                                                              \
          vp_true("every Dirichlet dof is listed, sorted", cnt < l.size() && l[cnt] == i);                             \
          ++cnt;                                                                                                       \
        }                                                                                                              \
      vp_true("nothing else is listed, nothing twice", l.size() == cnt);                                               \
    }                                                                                                                  \
  }
//@unit P12 mass_dir<{d},{n},{id},{ne},{p}> d=1,2 n=1,2 id=0,1,2,3 ne=1,2,3 p=0,1,2,3 if=d*ne<=4
//@unit P12 mass_dir<1,{n},0,7,{p}> n=1,4 p=0,1,2,3
//@unit P12 mass_dir<1,1,{id},{ne},{p}> id=1,2,3 ne=@9,13<=70 p=1,2
//@unit P12 mass_dir<3,1,{id},1,{p}> id=0,2,3 p=0,1,2,3
DIRICHLET_LIST_UNIT(mass_dir, MassApproxEigenvalue)
//@unit P12 shift_dir<{d},{n},{id},{ne},{p}> d=1,2 n=1,2 id=0,1,2,3 ne=1,2,3 p=0,1,2,3 if=d*ne<=4
//@unit P12 shift_dir<1,{n},0,7,{p}> n=1,4 p=0,1,2,3
//@unit P12 shift_dir<1,1,{id},{ne},{p}> id=1,2,3 ne=@9,13<=70 p=1,2
//@unit P12 shift_dir<3,1,{id},1,{p}> id=0,2,3 p=0,1,2,3
DIRICHLET_LIST_UNIT(shift_dir, ShiftedInverseEigenvalue)
#define DIRICHLET_REFINE_UNIT(fname, CLS)                                                                              \
  template <uint n, uint par> void fname()                                                                             \
  {                                                                                                                    \
    Loop<GlobalLoop::CLS, double, 1, n, 1, 0> g(MockCtor{2, 4, 0}, par), h(MockCtor{4, 8, 0}, par);                    \
    g.dirichlet_indices();                                                                                             \
    g.set_refinement(2);                                                                                               \
    auto l = g.dirichlet_indices();                                                                                    \
    auto m = h.dirichlet_indices();                                                                                    \
    vp_true("list after refinement has the right length", l.size() == m.size());                                       \
    for (uint i = 0; i < m.size(); ++i)                                                                                \
      vp_true("list after refinement", i < l.size() && l[i] == m[i]);                                                  \
    g.set_refinement(1);                                                                                               \
    auto c = g.dirichlet_indices();                                                                                    \
    Loop<GlobalLoop::CLS, double, 1, n, 1, 0> k(MockCtor{2, 4, 0}, par);                                               \
    auto f = k.dirichlet_indices();                                                                                    \
    vp_true("list after coarsening has the right length", c.size() == f.size());                                       \
    for (uint i = 0; i < f.size(); ++i)                                                                                \
      vp_true("list after coarsening", i < c.size() && c[i] == f[i]);                                                  \
  }
//@unit P12 mass_dir_ref<{n},{p}> n=1,2 p=0,1,2,3
DIRICHLET_REFINE_UNIT(mass_dir_ref, MassApproxEigenvalue)
//@unit P12 shift_dir_ref<{n},{p}> n=1,2 p=0,1,2,3
DIRICHLET_REFINE_UNIT(shift_dir_ref, ShiftedInverseEigenvalue)

// ------------------------------------------------------------------------------------------------
// initial values, stored data
// ------------------------------------------------------------------------------------------------
template <class T, uint d, uint n, uint kind, uint id, uint ne, class V>
void check_initial(const V& y, T t, bool zero_in, uint par)
{
  vp_true("size", y.size() == NN * n);
  bool has[NN];
  for (uint i = 0; i < NN; ++i)
    has[i] = false;
  for (uint e = 0; e < ne; ++e)
    for (uint i = 0; i < 2 * d; ++i)
      has[conn<id, d>(e, i)] = true;
  for (uint i = 0; i < NN; ++i)
    for (uint j = 0; j < n; ++j)
    {
      T in = zero_in ? T(0) : vp_in<T>::get("x", i * n + j);
      if (!has[i])
        vp_eq_d("node without hyperedge", i * n + j, y[i * n + j], 0.);
      else if (kind == 1)
        vp_eq_d("initial value", i * n + j, y[i * n + j], vp_fn_d("initial", 5, (double)i, (double)j, (double)t, (double)in, (double)par));
      else
        vp_eq_d("initial value", i * n + j, y[i * n + j], vp_fn_d("initial", 3, (double)t, (double)in, (double)par));
    }
}
//@unit P13 par_init<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P13 par_init<double,1,{n},1,0,7> n=1,4
//@unit P13 par_init<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P13 par_init<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
template <class T, uint d, uint n, uint kind, uint id, uint ne> void par_init()
{
  Loop<GlobalLoop::Parabolic, T, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  const std::vector<T> x = vec<T>("x", NN * n);
  T t = vp_in<T>::get("t", 0);
  auto y = g.make_initial(x, t);
  check_initial<T, d, n, kind, id, ne>(y, t, true, 17);
  auto z = g.make_initial(x);
  check_initial<T, d, n, kind, id, ne>(z, T(0), true, 17);
  same<T>(x, "x", NN * n, "argument unchanged");
}
//@unit P13 nl_init<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P13 nl_init<double,1,{n},1,0,7> n=1,4
//@unit P13 nl_init<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P13 nl_init<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
template <class T, uint d, uint n, uint kind, uint id, uint ne> void nl_init()
{
  Loop<GlobalLoop::NonlinearEigenvalue, T, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);
  const std::vector<T> x = vec<T>("x", NN * n);
  T t = vp_in<T>::get("t", 0);
  auto y = g.make_initial(x, t);
  check_initial<T, d, n, kind, id, ne>(y, t, false, 17);
  same<T>(x, "x", NN * n, "argument unchanged");
}
//@unit P13 par_data<{T},{d},{n},{id},{ne}> T=double d=1,2 n=1,2 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P13 par_data<double,1,{n},0,7> n=1,4
//@unit P13 par_data<double,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P13 par_data<double,3,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
template <class T, uint d, uint n, uint id, uint ne> void par_data()
{
  Loop<GlobalLoop::Parabolic, T, d, n, 1, id> g(MockCtor{ne, NN, 0}, 17u);
  const std::vector<T> x = vec<T>("x", NN * n), z = vec<T>("z", NN * n), u = vec<T>("u", NN * n);
  T t = vp_in<T>::get("t", 0), s = vp_in<T>::get("t", 1), q = vp_in<T>::get("t", 2);
  T data[ne];
  g.set_data(x, t);
  for (uint e = 0; e < ne; ++e)
    data[e] = opq<T, n, 2 * d>("data", e, 0, 0, t, gather<T, d, n, id>(e, "x"), T(0));
  auto y = g.residual_flux(z, s);
  cmp<T>("residual uses the stored data of each hyperedge", y, want_op<T, d, n, 1, id, ne>("residual_flux", s, "z", data));
  auto y2 = g.trace_to_flux(z, s);
  cmp<T>("operator sees the stored data", y2, want_op<T, d, n, 1, id, ne>("trace_to_flux", s, "z", data));
  g.set_data(u, q);
  for (uint e = 0; e < ne; ++e)
    data[e] = opq<T, n, 2 * d>("data", e, 0, 0, q, gather<T, d, n, id>(e, "u"), data[e]);
  auto y3 = g.residual_flux(z, s);
  cmp<T>("data of the second step follow from those of the first", y3, want_op<T, d, n, 1, id, ne>("residual_flux", s, "z", data));
  same<T>(x, "x", NN * n, "argument unchanged");
}

// ------------------------------------------------------------------------------------------------
// errors
// ------------------------------------------------------------------------------------------------
#define ERROR_UNIT(fname, CLS)                                                                                         \
  template <class T, uint d, uint n, uint kind, uint id, uint ne> void fname()                                         \
  {                                                                                                                    \
    Loop<GlobalLoop::CLS, T, d, n, kind, id> g(MockCtor{ne, NN, 0}, 17u);                                              \
    const std::vector<T> x = vec<T>("x", NN * n);                                                                      \
    T t = vp_in<T>::get("t", 0);                                                                                       \
    auto r = g.errors(x, t);                                                                                           \
    auto r0 = g.errors(x);                                                                                             \
    vp_true("number of errors", r.size() == 2 && r0.size() == 2);                                                      \
    for (uint c = 0; c < 2; ++c)                                                                                       \
    {                                                                                                                  \
      T s = vp_in_d("init error", c), s0 = s;                                                                          \
      for (uint e = 0; e < ne; ++e)                                                                                    \
      {                                                                                                                \
        s += opq<T, n, 2 * d>("err", kind * e, c, 0, t, gather<T, d, n, id>(e, "x"));                                  \
        s0 += opq<T, n, 2 * d>("err", kind * e, c, 0, T(0), gather<T, d, n, id>(e, "x"));                              \
      }                                                                                                                \
      vp_eq_d("error", c, r[c], vp_fn_d("post", 1, (double)s));                                                        \
      vp_eq_d("error, default parameter", c, r0[c], vp_fn_d("post", 1, (double)s0));                                   \
    }                                                                                                                  \
    same<T>(x, "x", NN * n, "argument unchanged");                                                                     \
  }
//@unit P14 ell_err<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P14 ell_err<double,1,{n},1,0,7> n=1,4
//@unit P14 ell_err<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P14 ell_err<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
ERROR_UNIT(ell_err, Elliptic)
//@unit P14 par_err<{T},{d},{n},{k},{id},{ne}> T=double d=1,2 n=1,2 k=0,1 id=0,1,2,3 ne=1,2,3 if=(d*ne<=4)&((id==0)|(ne>1))
//@unit P14 par_err<double,1,{n},1,0,7> n=1,4
//@unit P14 par_err<double,1,1,1,{id},{ne}> id=1,2,3 ne=@9,13<=70
//@unit P14 par_err<double,3,1,1,{id},{ne}> id=0,2,3 ne=1,4 if=(id!=0)|(ne==1)
ERROR_UNIT(par_err, Parabolic)
