property = "P34"
needs = "parabolic stepping with set_data in a release build (the assertion for a missing function is compiled out)"
breaks = "the global loop no longer recognises set_data of the parabolic diffusion solver, as its return type differs from the queried signature; every step starts from the initial state"
f = "include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx"
edits = [(f, '''  template <class hyEdgeT>
  void set_data(
    const std''', '''  template <class hyEdgeT>
  hyEdgeT& set_data(
    const std'''), (f, '''            duals[i][j] + tau_ * primals[i][j] -
            tau_ * lambda_values[i][j] * hyper_edge.geometry.face_area(i);
    }
  }
  /*!***********************************************************************************************
   * \\brief   L2 project''', '''            duals[i][j] + tau_ * primals[i][j] -
            tau_ * lambda_values[i][j] * hyper_edge.geometry.face_area(i);
    }
    return hyper_edge;
  }
  /*!***********************************************************************************************
   * \\brief   L2 project''')]
demo = r'''
#define NDEBUG
#include "lsolmini.hxx"
#include "loopmini.hxx"
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{9};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static F inverse_diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F right_hand_side(const P&, const F = 0.) { return 1.; }
  static F dirichlet_value(const P&, const F = 0.) { return 0.; }
  static F neumann_value(const P&, const F = 0.) { return 0.; }
  static F initial(const P& x, const F = 0.) { return x[0]; }
  static F analytic_result(const P& x, const F = 0.) { return x[0]; }
};
int main()
{
  typedef LocalSolver::DiffusionParab<1, 1, 2, Par, double> LS;
  LTopo<1>::ctor c;
  GlobalLoop::Parabolic<LTopo<1>, LGeom<1>, LNode<1>, LS> g(c, std::vector<double>{1., 1., .5});
  const LS s(std::vector<double>{1., 1., .5});
  const std::vector<double> x{1., 2.5, -3.};
  g.set_data(x, 0.5);
  const auto y = g.residual_flux(x, 1.);
  std::vector<double> w(3, 0.);
  for (uint e = 0; e < 2; ++e)
  {
    Box<1, LS::data_type> b{{{e * 1.}, {1.}}, {0u, 0u}, {}};
    std::array<std::array<double, 1>, 2> in{{{x[e]}, {x[e + 1]}}}, out{};
    s.set_data(in, b, .5);
    s.residual_flux(in, out, b, 1.);
    w[e] += out[0][0], w[e + 1] += out[1][0];
  }
  for (uint i = 0; i < 3; ++i)
    CHECK(std::abs(y[i] - w[i]) < 1e-12);
  return demo_bad;
}
'''
