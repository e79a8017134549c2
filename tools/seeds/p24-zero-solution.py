property = "P24"
needs = "a local problem that is singular (here: stabilisation zero), release build"
breaks = "the eigenvalue solver returns a zero flux instead of throwing if the local problem is singular"
edits = [("include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx", '''      return (rhs / assemble_loc_matrix(tau_, hyper_edge, eig)).data();
    }
    catch (Wrapper::LAPACKexception& exc)
    {
      hy_assert(0 == 1, exc.what() << std::endl
                                   << "This can happen if quadrature is too inaccurate!");
      throw exc;
    }''', '''      return (rhs / assemble_loc_matrix(tau_, hyper_edge, eig)).data();
    }
    catch (Wrapper::LAPACKexception& exc)
    {
      hy_assert(0 == 1, exc.what() << std::endl
                                   << "This can happen if quadrature is too inaccurate!");
      return {};
    }''')]
demo = r'''
#define NDEBUG
#include "lsolmini.hxx"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
template <uint S, class F> struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<uint, 1> dirichlet_nodes{1};
  static constexpr std::array<uint, 1> neumann_nodes{7};
  static F inverse_diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F diffusion_coeff(const P&, const F = 0.) { return 1.; }
  static F initial(const P&, const F = 0.) { return 1.; }
  static F analytic_result(const P&, const F = 0.) { return 1.; }
};
int main()
{
  typedef std::array<std::array<double, 1>, 2> L;
  for (double tau : {1., 0.})
  {
    const LocalSolver::DiffusionEigs<1, 0, 2, Par, double> s(tau);
    Box<1> e{{{0.}, {1.}}, {0u, 0u}};
    L in{{{1.}, {2.}}}, out{};
    bool threw = false;
    try { s.trace_to_flux(in, out, e, 0.); } catch (const std::exception&) { threw = true; }
    CHECK(threw == (tau == 0.));
  }
  return demo_bad;
}
'''
