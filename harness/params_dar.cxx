// Specification units: the diffusion-advection-reaction problems of reproducibles_python.
#include "params.hxx"
#include <reproducibles_python/parameters/diffusion_advection_reaction.hxx>
template <class P, uint s, uint d> void dar()
{
  const double t = vp_in_d("t", 0);
  places<s, d>([&](const Point<s, double>& x, uint mask) {
    const double ik = P::inverse_diffusion_coeff(x, t), u = P::analytic_result(x, t);
    const auto b = P::advective_velocity(x, t);
    double w = -lap<s>(1. / ik, u, mask) + P::reaction_rate(x, t) * u;
    for (uint i = 0; i < s; ++i)
      if (mask >> i & 1)
        w += dx(b[i] / ik * u, i);
    vp_near_d("source is the operator applied to the solution", mask, P::right_hand_side(x, t), w);
    common<P>(x, t);
  });
  all_boundary(P::dirichlet_nodes);
  vp_true("no Neumann boundary", P::neumann_nodes.size() == 0);
}
//@unit P33 sin_ellipt<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_ellipt() { dar<TestParametersSinEllipt<s, double>, s, s>(); }
//@unit P33 quad<{d},{s}> d=1,2,3 s=1,2,3 if=d<=s mode=ndebug
template <uint d, uint s> void quad() { dar<typename HG<d>::template TestParametersQuadEllipt<s, double>, s, d>(); }
