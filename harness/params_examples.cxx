// Specification units: the diffusion problem of examples.
#include "params.hxx"
#include <examples/parameters/diffusion.hxx>
//@unit P33 example<{d},{s}> d=1,2,3 s=1,2,3 if=d<=s mode=ndebug
template <uint d, uint s> void example()
{
  using P = typename HG<d>::template DiffusionElliptic<s, double>;
  const double t = vp_in_d("t", 0);
  places<s, d>([&](const Point<s, double>& x, uint mask) {
    const double ik = P::inverse_diffusion_coeff(x, t), u = P::analytic_result(x, t);
    vp_near_d("diffusion coefficient times its inverse", 0, P::diffusion_coeff(x, t) * ik, 1.);
    vp_near_d("source is the operator applied to the solution", mask, P::right_hand_side(x, t), -lap<s>(1. / ik, u, mask));
    common<P>(x, t);
  });
  all_boundary(P::dirichlet_nodes);
}
