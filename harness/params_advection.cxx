// Specification units: the advection problems of reproducibles_python.
#include "params.hxx"
#include <reproducibles_python/parameters/advection.hxx>
//@unit P33 sin_parab<{s}> s=1,2,3 mode=ndebug
template <uint s> void sin_parab()
{
  using P = TestParametersSinParab<s, double>;
  const double t = vp_in_d("t", 0);
  const auto x = place<s>(~0u, 0);
  const double u = P::analytic_result(x, t);
  const auto b = P::velocity(x, t);
  double w = dt(u);
  for (uint i = 0; i < s; ++i)
    w += dx(b[i] * u, i);
  vp_near_d("source is the operator applied to the solution", 0, P::right_hand_side(x, t), w);
  common<P>(x, t);
  for (uint i = 1; i < s; ++i)
    vp_near_d("flow along the first axis", i, b[i], 0.);
  vp_true("flow in positive direction", b[0] > 0);
  for (uint n = 0; n < 27; ++n)
  {
    vp_true("the inflow boundary is prescribed", has(P::dirichlet_nodes, n) == (n % 3 == 1));
    vp_true("the outflow boundary is free", has(P::outflow_nodes, n) == (n % 3 == 2));
    vp_true("no other boundary", !has(P::boundary_nodes, n));
  }
}
//@unit P33 leveque mode=ndebug
inline void leveque()
{
  using P = LeVeque<2, double>;
  const double t = vp_in_d("t", 0);
  const auto x = place<2>(~0u, 0);
  const auto b = P::velocity(x, t);
  vp_near_d("the flow is a rotation about the centre of the square", 0, b[0], 0.5 - x[1]);
  vp_near_d("the flow is a rotation about the centre of the square", 1, b[1], x[0] - 0.5);
  vp_near_d("no source", 0, P::right_hand_side(x, t), 0.);
  common<P>(x, t);
  all_boundary(P::boundary_nodes);
}
template <class P, uint s> void transport()
{
  const double t = vp_in_d("t", 0);
  const auto x = place<s>(~0u, 0);
  vp_near_d("no source", 0, P::right_hand_side(x, t), 0.);
  vp_near_d("initial value is the solution", 0, P::initial(x, t), P::analytic_result(x, t));
}
//@unit P33 leveque_hg mode=ndebug
inline void leveque_hg() { transport<LeVequeHG<3, double>, 3>(); }
//@unit P33 movie mode=ndebug
inline void movie() { transport<HyperGraphMovie<3, double>, 3>(); }
//@unit P33 injected<{s}> s=1,2,3 mode=ndebug
template <uint s> void injected()
{
  transport<injection<s, double>, s>();
  const auto x = place<s>(~0u, 0);
  vp_near_d("the domain is empty at first", 0, injection<s, double>::initial(x, 0.), 0.);
  for (uint n = 0; n < 27; ++n)
    vp_true("inflow and outflow exclude each other", !(has(injection<s, double>::dirichlet_nodes, n) && has(injection<s, double>::outflow_nodes, n)));
}
