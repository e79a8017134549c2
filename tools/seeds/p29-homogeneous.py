property = "P29"
needs = "plotting values of a problem with sources or non-zero Dirichlet data"
breaks = "bulk_values of the diffusion solver evaluates the local solution without sources and boundary data"
edits = [("include/HyperHDG/local_solver/diffusion_ldgh.hxx", '''    solve_local_problem(lambda_values, 1U, hyper_edge, time);
  SmallVec<n_shape_fct_, lSol_float_t> coeffs;
  SmallVec<static_cast''', '''    solve_local_problem(lambda_values, 0U, hyper_edge, time);
  SmallVec<n_shape_fct_, lSol_float_t> coeffs;
  SmallVec<static_cast''')]
demo = r'''
#include "lsolmini.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
// u = x (1 - x) / 2 + x on (0,1)
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{1};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static F inverse_diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F right_hand_side(const P&, const F = 0.) { return 1.; }
  static F dirichlet_value(const P& x, const F = 0.) { return x[0]; }
  static F neumann_value(const P&, const F = 0.) { return 0.; }
  static F analytic_result(const P& x, const F = 0.) { return x[0] * (1 - x[0]) / 2 + x[0]; }
};
int main()
{
  const LocalSolver::Diffusion<1, 2, 4, Par, double> s(1.);
  typedef std::array<std::array<double, 1>, 2> L;
  Box<1> e{{{0.}, {1.}}, {0u, 1u}};
  L in{};
  CHECK(s.errors(in, e, 0.)[0] < 1e-20);
  const std::array<double, 3> ab{0., 0.25, 1.};
  const auto v = s.bulk_values(ab, in, e, 0.);
  for (uint k = 0; k < 3; ++k)
  {
    CHECK(std::abs(v[1][k] - (ab[k] * (1 - ab[k]) / 2 + ab[k])) < 1e-6);
    CHECK(std::abs(v[0][k] - (ab[k] - 1.5)) < 1e-6);
  }
  return demo_bad;
}
'''
