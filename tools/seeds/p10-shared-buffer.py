property = "P10"
needs = "a hypergraph with at least two hyperedges sharing a hypernode, residual of the parabolic loop"
breaks = "the local result of the previous hyperedge is not reset for a hyperedge that starts at the hypernode where the previous one ended, and is added again"
edits = [("include/HyperHDG/global_loop/parabolic.hxx",
"""        // Fill x_vec's degrees of freedom of a hyperedge into hyEdge_dofs array.
        hyEdge_hyNodes = hyper_edge.topology.get_hyNode_indices();
        for (unsigned int hyNode = 0; hyNode < hyEdge_hyNodes.size(); ++hyNode)
        {
          hyper_graph_.hyNode_factory().get_dof_values(hyEdge_hyNodes[hyNode], x_vec,
                                                       hyEdge_dofs_old[hyNode]);
          hyEdge_dofs_new[hyNode].fill(0.);
        }
""", """        // Fill x_vec's degrees of freedom of a hyperedge into hyEdge_dofs array.
        const bool new_patch = hyEdge_hyNodes[2 * hyEdge_dim - 1] != hyper_edge.topology.get_hyNode_indices()[0] || hyEdge_hyNodes[0] == hyEdge_hyNodes[1];
        hyEdge_hyNodes = hyper_edge.topology.get_hyNode_indices();
        for (unsigned int hyNode = 0; hyNode < hyEdge_hyNodes.size(); ++hyNode)
        {
          hyper_graph_.hyNode_factory().get_dof_values(hyEdge_hyNodes[hyNode], x_vec,
                                                       hyEdge_dofs_old[hyNode]);
          if (new_patch || hyNode > 0)
            hyEdge_dofs_new[hyNode].fill(0.);
        }
""")]
count = {"include/HyperHDG/global_loop/parabolic.hxx": 2}
demo = r'''
#include "mini.hxx"
#include <HyperHDG/global_loop/parabolic.hxx>

struct Sol
{
  typedef std::array<std::array<double, 2>, 2> L;
  struct data_type { double v = 0; };
  struct error_def
  {
    typedef std::array<double, 1> error_t;
    static error_t initial_error() { return {0.}; }
    static error_t sum_error(error_t a, const error_t& b) { a[0] += b[0]; return a; }
    static error_t postprocess_error(error_t a) { return a; }
  };
  typedef int constructor_value_type;
  Sol(const int& = 0) {}
  static constexpr uint hyEdge_dim() { return 1; }
  static constexpr uint n_glob_dofs_per_node() { return 2; }
  static constexpr uint system_dimension() { return 1; }
  static constexpr uint node_system_dimension() { return 1; }
  // new(i, j) += sum_k (1 + k + 10 i + 100 j) old(k) * (1 + edge) * (1 + time)
  template <class E> L& trace_to_flux(L& o, L& r, E& e, double t) const
  {
    for (uint i = 0; i < 2; ++i)
      for (uint j = 0; j < 2; ++j)
        for (uint k = 0; k < 4; ++k)
          r[i][j] += (1 + k + 10 * i + 100 * j) * o[k / 2][k % 2] * (1 + e.topology.idx) * (1 + t);
    return r;
  }
  template <class E> L& residual_flux(L& o, L& r, E& e, double t) const { trace_to_flux(o, r, e, t); for (auto& x : r) for (auto& y : x) y += 1; return r; }
  template <class E> L& trace_to_mass_flux(L& o, L& r, E& e, double t) const { return trace_to_flux(o, r, e, t); }
  template <class E> L& make_initial(L& o, E& e, double t) const
  {
    for (uint i = 0; i < 2; ++i)
      for (uint j = 0; j < 2; ++j)
        o[i][j] += 10 * (e.topology.idx + i) + j + t;
    return o;
  }
  template <class E> void set_data(L& o, E& e, double t) const { e.data.v += o[0][0] + 10 * o[0][1] + 100 * o[1][0] + 1000 * o[1][1] + t; }
  template <class E> std::array<double, 1> errors(L& o, E& e, double t) const { return {o[0][0] + 2 * o[0][1] + 3 * o[1][0] + 4 * o[1][1] + (e.topology.idx + 1) * t + e.data.v}; }
  template <class E> std::array<uint, 2> node_types(E& e) const { return {e.topology.idx == 0 ? 1u : 0u, e.topology.idx == 1 ? 1u : 0u}; }
};

int main()
{
  Chain c;
  c.n_edges = 3;
  GlobalLoop::Parabolic<Topo<1>, Geom<1>, Node<1>, Sol> p(c);
  std::vector<double> x(8);
  for (uint i = 0; i < 8; ++i) x[i] = i + 1;
  std::vector<double> want(8, 0.), got = p.trace_to_flux(x, 0.5);
  for (uint e = 0; e < 3; ++e)
    for (uint i = 0; i < 2; ++i) for (uint j = 0; j < 2; ++j)
      for (uint k = 0; k < 4; ++k)
        want[2 * (e + i) + j] += (1 + k + 10 * i + 100 * j) * x[2 * e + k] * (1 + e) * 1.5;
  for (uint i = 0; i < 8; ++i) CHECK(std::abs(got[i] - want[i]) < 1e-9);
  return demo_bad;
}
'''
