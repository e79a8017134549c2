property = "P25"
needs = "a hyperedge with a Dirichlet hypernode at a face that comes after a face which is not Dirichlet"
breaks = "residual_flux of the diffusion solver ignores the Dirichlet data of all faces after the first one that is not Dirichlet"
edits = [("include/HyperHDG/local_solver/diffusion_ldgh.hxx", "      if (!is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))\n        continue;", "      if (!is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))\n        break;")]
demo = r'''
#include "lsolmini.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
// u = x on (0,1): no flux through the skeleton is left if the traces are exact
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{1};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static F inverse_diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F right_hand_side(const P&, const F = 0.) { return 0.; }
  static F dirichlet_value(const P& x, const F = 0.) { return 3. + x[0]; }
  static F neumann_value(const P&, const F = 0.) { return 0.; }
  static F analytic_result(const P& x, const F = 0.) { return 3. + x[0]; }
};
int main()
{
  const LocalSolver::Diffusion<1, 1, 2, Par, double> s(1.);
  typedef std::array<std::array<double, 1>, 2> L;
  for (uint end = 0; end < 2; ++end)
  {
    Box<1> e{{{0.}, {1.}}, {end == 0 ? 1u : 0u, end == 1 ? 1u : 0u}};
    L in{}, out{};
    in[1 - end][0] = end == 0 ? 4. : 3.;
    s.residual_flux(in, out, e, 0.);
    CHECK(std::abs(out[end][0]) < 1e-12);
    CHECK(std::abs(std::abs(out[1 - end][0]) - 1.) < 1e-12);
    CHECK(s.errors(in, e, 0.)[0] < 1e-20);
  }
  return demo_bad;
}
'''
