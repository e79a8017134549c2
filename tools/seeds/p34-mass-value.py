property = "P34"
needs = "the mass operator of the approximated eigenvalue problem with the bilaplacian solver in a release build"
breaks = "trace_to_mass_flux of the bilaplacian solver returns its result by value; the global loop does not recognise the function and returns the input of the hyperedges as result"
f = "include/HyperHDG/local_solver/bilaplacian_ldgh.hxx"
edits = [(f, '''  SmallMatOutT& trace_to_mass_flux(const SmallMatInT& lambda_values_in,
                                   SmallMatOutT& lambda_values_out,
                                   hyEdgeT& hyper_edge,''', '''  SmallMatOutT trace_to_mass_flux(const SmallMatInT& lambda_values_in,
                                  SmallMatOutT& lambda_values_out,
                                  hyEdgeT& hyper_edge,''')]
demo = r'''
#define NDEBUG
#include "lsolmini.hxx"
#include "loopmini.hxx"
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{9};
  static constexpr std::array<uint, 1> dirichlet_laplacian_nodes{9};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static constexpr std::array<uint, 1> neumann_laplacian_nodes{7};
  static F inverse_bilaplacian_coefficient(const P&, const F = 0.) { return 1.; }
  static F right_hand_side(const P&, const F = 0.) { return 1.; }
  static F dirichlet_value(const P&, const F = 0.) { return 0.; }
  static F dirichlet_laplace_value(const P&, const F = 0.) { return 0.; }
  static F neumann_value(const P&, const F = 0.) { return 0.; }
  static F neumann_laplace_value(const P&, const F = 0.) { return 0.; }
  static F initial(const P& x, const F = 0.) { return x[0]; }
  static F initial_laplace(const P& x, const F = 0.) { return x[0]; }
  static F analytic_result(const P& x, const F = 0.) { return x[0]; }
};
int main()
{
  typedef LocalSolver::Bilaplacian<1, 1, 2, Par, double> LS;
  LTopo<1>::ctor c;
  GlobalLoop::MassApproxEigenvalue<LTopo<1>, LGeom<1>, LNode<1>, LS> g(c, 1.);
  const LS s(1.);
  const std::vector<double> x{1., 2.5, -3., 4., 0.5, 2.};
  const auto y = g.trace_to_mass_flux(x, 1.);
  std::vector<double> w(6, 0.);
  for (uint e = 0; e < 2; ++e)
  {
    Box<1, LS::data_type> b{{{e * 1.}, {1.}}, {0u, 0u}, {}};
    std::array<std::array<double, 2>, 2> in{{{x[2 * e], x[2 * e + 1]}, {x[2 * e + 2], x[2 * e + 3]}}}, out{};
    s.trace_to_mass_flux(in, out, b, 1.);
    for (uint f = 0; f < 2; ++f)
      for (uint j = 0; j < 2; ++j)
        w[2 * (e + f) + j] += out[f][j];
  }
  for (uint i = 0; i < 6; ++i)
    CHECK(std::abs(y[i] - w[i]) < 1e-12);
  return demo_bad;
}
'''
