property = "P14"
needs = "errors at a time other than zero with a local solver that takes the hyperedge"
breaks = "the error of every hyperedge is evaluated at a time which is rounded to single precision"
edits = [("include/HyperHDG/global_loop/prototype.hxx", "            result, local_solver_.fun_name(dofs, hyper_edge, time));", "            result, local_solver_.fun_name(dofs, hyper_edge, (float)(time)));")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/global_loop/parabolic.hxx>

struct Sol
{
  typedef std::array<std::array<double, 2>, 2> L;
  struct data_type { double v = 0; };
  struct error_def
  {
    typedef std::array<double, 1> error_t;
    static error_t initial_error() { return {0.}; }
    static error_t sum_error(error_t a, const error_t& b) { a[0] += b[0]; return a; }
    static error_t postprocess_error(error_t a) { return a; }
  };
  typedef int constructor_value_type;
  Sol(const int& = 0) {}
  static constexpr uint hyEdge_dim() { return 1; }
  static constexpr uint n_glob_dofs_per_node() { return 2; }
  static constexpr uint system_dimension() { return 1; }
  static constexpr uint node_system_dimension() { return 1; }
  // new(i, j) += sum_k (1 + k + 10 i + 100 j) old(k) * (1 + edge) * (1 + time)
  template <class E> L& trace_to_flux(L& o, L& r, E& e, double t) const
  {
    for (uint i = 0; i < 2; ++i)
      for (uint j = 0; j < 2; ++j)
        for (uint k = 0; k < 4; ++k)
          r[i][j] += (1 + k + 10 * i + 100 * j) * o[k / 2][k % 2] * (1 + e.topology.idx) * (1 + t);
    return r;
  }
  template <class E> L& residual_flux(L& o, L& r, E& e, double t) const { trace_to_flux(o, r, e, t); for (auto& x : r) for (auto& y : x) y += 1; return r; }
  template <class E> L& trace_to_mass_flux(L& o, L& r, E& e, double t) const { return trace_to_flux(o, r, e, t); }
  template <class E> L& make_initial(L& o, E& e, double t) const
  {
    for (uint i = 0; i < 2; ++i)
      for (uint j = 0; j < 2; ++j)
        o[i][j] += 10 * (e.topology.idx + i) + j + t;
    return o;
  }
  template <class E> void set_data(L& o, E& e, double t) const { e.data.v += o[0][0] + 10 * o[0][1] + 100 * o[1][0] + 1000 * o[1][1] + t; }
  template <class E> std::array<double, 1> errors(L& o, E& e, double t) const { return {o[0][0] + 2 * o[0][1] + 3 * o[1][0] + 4 * o[1][1] + (e.topology.idx + 1) * t + e.data.v}; }
  template <class E> std::array<uint, 2> node_types(E& e) const { return {e.topology.idx == 0 ? 1u : 0u, e.topology.idx == 1 ? 1u : 0u}; }
};

int main()
{
  Chain c;
  GlobalLoop::Parabolic<Topo<1>, Geom<1>, Node<1>, Sol> p(c);
  auto a = p.errors(p.zero_vector(), 0.1);
  CHECK(std::abs(a[0] - 0.3) < 1e-14);
  return demo_bad;
}
'''
