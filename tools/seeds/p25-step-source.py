property = "P25"
needs = "theta < 1 (not implicit Euler), a source that depends on time, and a second time step"
breaks = "the explicit part of the theta step of the parabolic diffusion solver uses the source at time zero"
edits = [("include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx", '''        parameters::right_hand_side>(i, hyper_edge.geometry, time);
      for (unsigned int j = 0; j < n_shape_fct_; ++j)
      {
        grad_int_vec =
          integrator::template integrate_vol_nablaphiphi<Point<hyEdge_dimT, lSol_float_t>,''', '''        parameters::right_hand_side>(i, hyper_edge.geometry);
      for (unsigned int j = 0; j < n_shape_fct_; ++j)
      {
        grad_int_vec =
          integrator::template integrate_vol_nablaphiphi<Point<hyEdge_dimT, lSol_float_t>,''')]
demo = r'''
#include "lsolmini.hxx"
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{1};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static F inverse_diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F right_hand_side(const P&, const F t = 0.) { return t; }
  static F dirichlet_value(const P&, const F = 0.) { return 0.; }
  static F neumann_value(const P&, const F = 0.) { return 0.; }
  static F initial(const P&, const F = 0.) { return 0.; }
  static F analytic_result(const P&, const F = 0.) { return 0.; }
};
int main()
{
  // u(t) = t^2 / 2 solves u' = t with constant traces; the trapezoidal rule is exact for it
  typedef LocalSolver::DiffusionParab<1, 1, 2, Par, double> Sol;
  const double dt = 0.25;
  const Sol s({1., 0.5, dt});
  typedef std::array<std::array<double, 1>, 2> L;
  Box<1, Sol::data_type> e{{{0.}, {1.}}, {0u, 0u}};
  L lam{};
  s.make_initial(lam, e, 0.);
  for (uint n = 1; n < 4; ++n)
  {
    const double t = n * dt;
    lam[0][0] = lam[1][0] = t * t / 2;
    L out{};
    s.residual_flux(lam, out, e, t);
    CHECK(std::abs(out[0][0]) < 1e-12 && std::abs(out[1][0]) < 1e-12);
    s.set_data(lam, e, t);
  }
  return demo_bad;
}
'''
