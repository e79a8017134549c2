// Specification units: the bilaplacian problems of reproducibles_python.
#include "params.hxx"
#include <reproducibles_python/parameters/bilaplacian.hxx>
template <class P, uint s, uint d> void bilaplacian(bool parab)
{
  const double t = vp_in_d("t", 0);
  places<s, d>([&](const Point<s, double>& x, uint mask) {
    const double ik = P::inverse_bilaplacian_coefficient(x, t), u = P::analytic_result(x, t);
    const double m = -1. / ik * lap<s>(1., u, mask);
    vp_near_d("source is the operator applied to the solution", mask, P::right_hand_side(x, t),
              (parab ? dt(u) : 0.) - lap<s>(1., m, mask));
    vp_near_d("second boundary value is the scaled negative Laplacian", mask, P::dirichlet_laplace_value(x, t), m);
    if (parab)
      vp_near_d("second initial value is the scaled negative Laplacian", mask, P::initial_laplace(x, t), m);
    common<P>(x, t);
  });
  all_boundary(P::dirichlet_nodes);
  all_boundary(P::dirichlet_laplacian_nodes);
  vp_true("no Neumann boundary", P::neumann_nodes.size() == 0 && P::neumann_laplcian_nodes.size() == 0);
}
//@unit P33 sin_ellipt<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_ellipt() { bilaplacian<TestParametersSinEllipt<s, double>, s, s>(false); }
//@unit P33 sin_parab<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_parab() { bilaplacian<TestParametersSinParab<s, double>, s, s>(true); }
//@unit P33 quad<{d},{s}> d=1,2,3 s=1,2,3 if=d<=s mode=ndebug
template <uint d, uint s> void quad() { bilaplacian<typename HG<d>::template TestParametersQuadEllipt<s, double>, s, d>(false); }
//@unit P33 eigs<{s}> s=1,2,3 mode=ndebug
template <uint s> void eigs()
{
  using P = TestParametersEigs<s, double>;
  const double t = vp_in_d("t", 0);
  const auto x = place<s>(~0u, 0);
  vp_near_d("eigenvalue problems have no source", 0, P::right_hand_side(x, t), 0.);
  vp_near_d("eigenvalue problems have homogeneous boundary values", 0, P::dirichlet_value(x, t), 0.);
  vp_near_d("eigenvalue problems have homogeneous boundary values", 1, P::dirichlet_laplace_value(x, t), 0.);
  vp_near_d("unit coefficient", 0, P::inverse_bilaplacian_coefficient(x, t), 1.);
  all_boundary(P::dirichlet_nodes);
  all_boundary(P::dirichlet_laplacian_nodes);
}
