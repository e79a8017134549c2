// Specification units: the diffusion problems of reproducibles_python and examples.
#include "params.hxx"
#include <reproducibles_python/parameters/diffusion.hxx>
template <class P, uint s, uint d> void diffusion(bool parab)
{
  const double t = vp_in_d("t", 0);
  places<s, d>([&](const Point<s, double>& x, uint mask) {
    const double ik = P::inverse_diffusion_coeff(x, t), u = P::analytic_result(x, t);
    if constexpr (requires { P::diffusion_coeff(x, t); })
      vp_near_d("diffusion coefficient times its inverse", 0, P::diffusion_coeff(x, t) * ik, 1.);
    vp_near_d("source is the operator applied to the solution", mask, P::right_hand_side(x, t),
              (parab ? dt(u) : 0.) - lap<s>(1. / ik, u, mask));
    common<P>(x, t);
  });
  all_boundary(P::dirichlet_nodes);
  vp_true("no Neumann boundary", P::neumann_nodes.size() == 0);
}
//@unit P33 sin_ellipt<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_ellipt() { diffusion<TestParametersSinEllipt<s, double>, s, s>(false); }
//@unit P33 sin_parab<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_parab() { diffusion<TestParametersSinParab<s, double>, s, s>(true); }
//@unit P33 quad<{d},{s}> d=1,2,3 s=1,2,3 if=d<=s mode=ndebug
template <uint d, uint s> void quad() { diffusion<typename HG<d>::template TestParametersQuadEllipt<s, double>, s, d>(false); }
//@unit P33 quad_ho<{d},{s}> d=1,2,3 s=1,2,3 if=d<=s mode=ndebug
template <uint d, uint s> void quad_ho() { diffusion<typename HG<d>::template TestParametersQuadElliptHO<s, double>, s, d>(false); }
//@unit P33 eigs<{s}> s=1,2,3 mode=ndebug
template <uint s> void eigs()
{
  using P = TestParametersEigs<s, double>;
  const double t = vp_in_d("t", 0);
  const auto x = place<s>(~0u, 0);
  vp_near_d("eigenvalue problems have no source", 0, P::right_hand_side(x, t), 0.);
  vp_near_d("eigenvalue problems have homogeneous boundary values", 0, P::dirichlet_value(x, t), 0.);
  vp_near_d("Laplacian with unit coefficient", 0, P::inverse_diffusion_coeff(x, t), 1.);
  all_boundary(P::dirichlet_nodes);
  vp_true("no Neumann boundary", P::neumann_nodes.size() == 0);
}
